'use strict';
// C11: components raise only declared events, every declared event can be raised, two-way bindings announce and follow.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, U, TRUE, FALSE, Lit, keyOf } = A;
const { Sim, isFn } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

// value pairs (new, old) under which a change is observed
function pairs(decl) {
    if (decl && decl.isBool) return [[TRUE, FALSE], [FALSE, TRUE]];
    const t = decl && decl.types ? decl.types : [];
    if (t.length === 1 && t[0] === 'Number') return [[Lit(2), Lit(1)], [Lit(0), Lit(1)]];
    if (t.length === 1 && t[0] === 'Array') return [[Sym('N', { nonnull: true }), Sym('O', { nonnull: true })]];
    return [[Lit('b'), Lit('a')], [Lit(''), Lit('a')]];
}
const mentions = (v, k) => {
    const s = keyOf(v);
    return s === k || s.includes(k);
};

exports.run = () => {
    const R = report();
    const files = L.sourceFiles(L.UI).filter((f) => f.endsWith('.vue'));
    for (const f of files) {
        R.count('components');
        let scenario = null;
        const sim = new Sim({
            keepEvent: (e) => scenario && (e.t === 'emit' || e.t === 'write' || e.t === 'await'),
            // the two symbolic lists of a scenario differ
            decide: (v) => {
                if (!scenario || scenario[0].k !== 'sym') return undefined;
                const k = v.key || '';
                if (v.equalOf || /===/.test(k)) return /\bN\b/.test(k) && /\bO\b/.test(k) ? false : undefined;
                if (/^(N|O)\.every\(/.test(k)) return false;
                return undefined;
            },
        }).load(f);
        const { I, top, b } = sim;
        const rel = L.rel(f);
        const decl = top.def.emits || new Set();
        const raised = new Map();
        const sink = (e) => {
            if (e.t !== 'emit' || e.inst !== top) return;
            R.count('emissions');
            const n = e.name || '?';
            if (!raised.has(n)) raised.set(n, []);
            raised.get(n).push({ args: e.args, node: e.node, loc: I.loc(e.node) });
        };
        sim.during(sink, () => {
            for (const h of sim.hooks('onBeforeMount', 'onMounted', 'onBeforeUpdate', 'onUpdated', 'onActivated', 'onDeactivated', 'onBeforeUnmount', 'onUnmounted')) sim.runFn(h.fn, [], null, h.node);
            for (const x of sim.watchers()) sim.runWatcher(x);
            for (const e of b.entries) sim.runEntry(e);
            for (const c of sim.discover()) sim.runCallback(c);
            for (const m of sim.methods()) sim.runMethod(m);
        });
        for (const [n, es] of raised) {
            if (n === '?') continue;
            R.count('raised_events');
            if (!decl.has(n)) R.violation({ file: rel, line: 0, key: `${top.def.name}|undeclared ${n}`, message: `${top.def.name} raises ${n} at ${es[0].loc} without declaring it` });
        }
        for (const n of decl) {
            R.count('declared_events');
            if (!raised.has(n) && !raised.has('?')) R.violation({ file: rel, line: 0, key: `${top.def.name}|never ${n}`, message: `${top.def.name} declares ${n} but no path raises it` });
        }
        // two-way bindings
        const we = sim.watcherEffects();
        const reads = propReads(sim);
        for (const ev of decl) {
            const m = /^update:(.+)$/.exec(ev);
            if (!m) continue;
            const X = m[1];
            R.count('two_way_props');
            const pd = top.def.props.get(X);
            if (!pd) {
                R.violation({ file: rel, line: 0, key: `${top.def.name}|no prop ${X}`, message: `${top.def.name} announces update:${X} but has no property ${X}` });
                continue;
            }
            const dep = `prop:${top.uid}.${X}`;
            const ann = we.filter((w) => w.emits.some((e) => e.inst === top && e.name === ev));
            // everything that follows the property, through watchers
            const F = new Set([dep]);
            for (let grow = true; grow; ) {
                grow = false;
                for (const w of we) if ([...w.deps].some((d) => F.has(d))) for (const c of w.cells) if (!F.has(c)) F.add(c), (grow = true);
            }
            const annCells = new Set(ann.flatMap((w) => [...w.deps]).filter((d) => /^ref#/.test(d)));
            const mirror = [...annCells].filter((c) => F.has(c));
            const driven = X === 'modelValue' || reads.has(X) || F.size > 1;
            if (annCells.size && driven && !mirror.length) R.violation({ file: rel, line: 0, key: `${top.def.name}|follow ${X}`, message: `${top.def.name} announces changes of ${X} but its state does not follow the property (announced at ${I.loc(ann[0].w.node)})` });
            if (driven && !annCells.size && !reads.has(X)) R.violation({ file: rel, line: 0, key: `${top.def.name}|follow ${X}`, message: `${top.def.name} never reads its two-way property ${X}` });
            // every change of the mirrored state is announced with the new value
            for (const w of ann) {
                const cells = [...w.deps].filter((d) => (driven ? mirror.includes(d) : /^ref#/.test(d)));
                // announcements relayed by a nested control are judged by reachability
                if (w.inst !== top || cells.length !== 1 || w.deps.size !== 1 || !isFn(w.w.cb)) continue;
                const id = +cells[0].slice(4);
                const derived = !(w.w.source && w.w.source.k === 'ref' && w.w.source.id === id);
                for (const [N, O] of derived ? [[Sym('N', { nonnull: true }), Sym('O', { nonnull: true })]] : pairs(driven ? pd : null)) {
                    R.count('announce_scenarios');
                    scenario = [N, O];
                    const outs = sim.under({ pins: derived ? null : new Map([[id, N]]) }, () => sim.finish(I.invoke(w.w.cb, U, [N, O], sim.state(), w.w.node)));
                    scenario = null;
                    for (const o of outs) {
                        R.count('announce_paths');
                        const es = o.s.events().filter((e) => e.t === 'emit' && e.inst === top && e.name === ev);
                        const at = I.loc(w.w.node);
                        if (!es.length) R.violation({ file: rel, line: 0, key: `${top.def.name}|silent ${X}`, message: `a change of the state behind ${X} of ${top.def.name} from ${keyOf(O)} to ${keyOf(N)} is not announced on some path of the watcher at ${at}`, path: factsOf(o.s) });
                        if (derived) continue;
                        for (const e of es) {
                            const v = e.args[0] ? I.norm(o.s, e.args[0]) : U;
                            const ok = N.k === 'lit' && v.k === 'lit' ? (Object.is(v.v, N.v) || String(v.v) === String(N.v)) : mentions(v, keyOf(N)) && !/\bO\b/.test(keyOf(v));
                            if (!ok) R.violation({ file: rel, line: 0, key: `${top.def.name}|value ${X}`, message: `${top.def.name} announces ${keyOf(v)} for ${X} when the state changed from ${keyOf(O)} to ${keyOf(N)} (${I.loc(e.node)})` });
                        }
                    }
                }
            }
            // a property the component does not follow can only be announced by the state it reflects
            if (!driven && ann.length) {
                const allowed = new Set();
                for (const w of ann) {
                    allowed.add(`new#${w.w.id}`);
                    for (const d of w.deps) allowed.add(d);
                }
                for (const e of raised.get(ev) || []) {
                    R.count('output_emissions');
                    const v = e.args[0] || U;
                    const k = keyOf(v);
                    if (k.startsWith('arg:')) continue; // an internal callback handed to the template: judged where it is called
                    const fromState = [...allowed].some((a) => (a.startsWith('ref#') ? k.includes(a.slice(3)) : k.includes(a)));
                    if (!fromState) R.violation({ file: rel, line: 0, key: `${top.def.name}|reflect ${X}|${(/\.(\w+)\W*$/.exec(k) || ['', v.k])[1]}`, message: `${top.def.name} announces ${k.slice(0, 80)} for ${X} at ${e.loc}, which is not the state ${X} reflects` });
                }
            }
            // state kept behind a writable computed value: reads as the property once that is given, writes announce
            for (const c of I.writables) {
                let hit = false;
                const probe = Sym('W');
                const said = [];
                sim.during((e) => e.t === 'emit' && e.inst === top && e.name === ev && ((hit = true), said.push(e)), () => I.invoke(c.set, U, [probe], sim.state(), c.node));
                if (!hit) continue;
                const read = new Set();
                const prev = I.cfg.onRead;
                I.cfg.onRead = (o) => read.add(o.k === 'ref' ? 'ref#' + o.id : o.k === 'propref' ? `prop:${o.props.inst.uid}.${o.name}` : '');
                I.readRef(sim.state(), c, c.node);
                I.cfg.onRead = prev;
                if (!read.has(dep)) continue;
                R.count('writable_states');
                if (!said.some((e) => e.args[0] && keyOf(e.args[0]) === 'W')) R.violation({ file: rel, line: 0, key: `${top.def.name}|value ${X}`, message: `${top.def.name} announces ${keyOf(said[0].args[0] || U)} for ${X} when ${I.loc(c.node)} is set to another value` });
                const refs = [...read].filter((r) => /^ref#/.test(r));
                if (refs.length && refs.every((r) => we.some((w) => w.deps.has(dep) && w.cells.has(r)))) continue;
                for (const [N, O] of pairs(pd)) {
                    R.count('follow_scenarios');
                    const outs = sim.under({ props: (i, n) => (i === top && n === X ? N : null), pins: new Map(refs.map((r) => [+r.slice(4), O])) }, () => I.readRef(sim.state(), c, c.node));
                    for (const o of outs) {
                        if (o.c) continue;
                        R.count('follow_paths');
                        const v = I.norm(o.s, o.v);
                        if (keyOf(v) !== keyOf(N)) R.violation({ file: rel, line: 0, key: `${top.def.name}|stale ${X}`, message: `with ${X} of ${top.def.name} changed to ${keyOf(N)} after its own state became ${keyOf(O)}, the state at ${I.loc(c.node)} reads ${keyOf(v)}`, path: factsOf(o.s) });
                    }
                }
            }
            // the state follows the property
            for (const w of we) {
                if (!w.deps.has(dep) || w.deps.size !== 1 || w.inst !== top || !isFn(w.w.cb)) continue;
                const targets = [...w.cells].filter((c) => annCells.has(c) || [...closure(we, c)].some((d) => annCells.has(d)));
                if (targets.length !== 1) continue;
                const id = +targets[0].slice(4);
                for (const [N, O] of pairs(pd)) {
                    R.count('follow_scenarios');
                    scenario = [N, O];
                    const outs = sim.under({ props: (i, n) => (i === top && n === X ? N : null), pins: new Map([[id, O]]) }, () => sim.finish(I.invoke(w.w.cb, U, [N, O], sim.state(), w.w.node)));
                    scenario = null;
                    for (const o of outs) {
                        R.count('follow_paths');
                        const evs = o.s.events();
                        if (evs.some((e) => e.t === 'await')) continue; // handed to an asynchronous veto
                        const ws = evs.filter((e) => e.t === 'write' && e.cell === id);
                        const at = I.loc(w.w.node);
                        if (!ws.length) R.violation({ file: rel, line: 0, key: `${top.def.name}|stale ${X}`, message: `changing ${X} of ${top.def.name} from ${keyOf(O)} to ${keyOf(N)} leaves its state as it was on some path of the watcher at ${at}`, path: factsOf(o.s) });
                        else if (pd.isBool) {
                            const v = I.norm(o.s, ws[ws.length - 1].v);
                            if (v.k === 'lit' && v.v !== N.v) R.violation({ file: rel, line: 0, key: `${top.def.name}|wrong ${X}`, message: `changing ${X} of ${top.def.name} to ${keyOf(N)} sets its state to ${keyOf(v)} (${at})` });
                        }
                    }
                }
            }
        }
        R.stats(I.stats);
    }
    R.require('declared_events', 50);
    R.require('announce_scenarios', 10);
    R.require('follow_scenarios', 10);
    return R.result({
        rule: 'Events raised on any abstract path of handlers, hooks, watchers, callbacks and methods are exactly the declared ones; for each two-way property, the state announced by update:<property> is reached from the property through watchers, each announcing watcher announces the new value on every path on which old and new differ, each following watcher writes the state on every such path, and a property never read is announced only from the state it reflects.',
        explanation: 'Effect analysis of every component: emitted events and touched cells per watcher/handler, watcher dependency closure, and constant-propagation of differing value pairs through announcing and following watchers.',
        assumptions: ['a change handed to an awaited veto is announced by the veto outcome', 'watchers with several sources and announcements relayed by a nested control are judged by reachability only'],
    });
};
function factsOf(s) {
    return [...s.facts].slice(0, 8).map(([k, v]) => `${k.slice(0, 120)} = ${typeof v === 'object' ? keyOf(v) : v}`);
}
function closure(we, c) {
    const F = new Set([c]);
    for (let grow = true; grow; ) {
        grow = false;
        for (const w of we) if ([...w.deps].some((d) => F.has(d))) for (const x of w.cells) if (!F.has(x)) F.add(x), (grow = true);
    }
    return F;
}
// properties a component reads anywhere: in its script (props.x / toRefs destructuring) or template
function propReads(sim) {
    const { ts } = L;
    const out = new Set();
    const mod = sim.top.mod;
    const T = require('../lib/template.cjs');
    const visit = (n) => {
        if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'props') out.add(n.name.text);
        if (ts.isVariableDeclaration(n) && ts.isObjectBindingPattern(n.name) && n.initializer && /\bprops\b/.test(n.initializer.getText(mod.sf))) for (const e of n.name.elements) out.add((e.propertyName || e.name).getText(mod.sf));
        if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'toRef' && n.arguments[1] && ts.isStringLiteral(n.arguments[1])) out.add(n.arguments[1].text);
        ts.forEachChild(n, visit);
    };
    visit(mod.sf);
    if (mod.template)
        T.walkTemplate(mod.template, (el, locals, anc, interp) => {
            const scan = (exp) => {
                const r = L.parseExpr(exp.content, 1);
                for (const id of r.expr ? T.freeIds(r.expr) : r.stmts.flatMap((s) => T.freeIds(s))) if (!locals.has(id.text)) out.add(id.text);
            };
            if (interp) scan(interp.content);
            else for (const x of T.exprs(el)) scan(x.exp);
        });
    return out;
}
