'use strict';
// C02: a refusing hook leaves value, dialog and overlay stack as they were on every user route.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, U, Lit, TRUE, FALSE, keyOf } = A;
const { World, compDef } = require('../lib/component.cjs');
const { Sim, isFn } = require('../lib/effects.cjs');
const { Unit, Id, identities } = require('../lib/unit.cjs');
const { Dialogs } = require('../lib/dialogs.cjs');
const { report } = require('../lib/report.cjs');

// a hook answering now or later
const hook = (answer, later) => ({ k: 'native', name: 'hook', key: `hook:${answer}:${later}`, impl: (I, st, args, node) => {
    I.event(st, { t: 'hook-asked', key: 'hook', args, node });
    return [{ s: st, v: later ? { k: 'promise', v: Lit(answer) } : Lit(answer) }];
} });
const isValueEvent = (def) => (n) => {
    if (!n) return false;
    if (n === 'change' || n === 'toggle') return true;
    const m = /^update:(.+)$/.exec(n);
    return !!m && !['changed', 'valid'].includes(m[1]) && def.props.has(m[1]);
};

// ---------------------------------------------------------------- value controls
function control(R, f, name) {
    const sim = new Sim().load(f);
    const { I, top, b } = sim;
    const isEvent = isValueEvent(top.def);
    const V = sim.cellsRaising(isEvent);
    const cbs = sim.discover().filter((c) => c.kind === 'listener' || c.kind === 'key');
    R.count('hooked_controls');
    R.count('value_cells', V.size);
    const run = (answer, later, onEffect) => {
        const h = hook(answer, later);
        sim.under({ props: (inst, n) => (inst === top && n === name ? h : null) }, () => {
            const go = (what, line, file, f2) => {
                R.count('routes');
                let asked = 0;
                const outs = sim.during((e, st) => {
                    if (e.t === 'hook-asked') asked++;
                    if (e.t === 'emit' && e.inst === top && isEvent(e.name)) onEffect(what, line, file, `raises ${e.name}`, e);
                    else {
                        const c = sim.cellOf(e);
                        if (c && V.has(c) && !sim.isNoop(e, st)) onEffect(what, line, file, 'changes the value', e);
                    }
                }, f2);
                R.count('paths', outs.length);
                if (asked) R.count('hook_calls', asked);
            };
            for (const e of b.entries) go(`@${e.event} on <${e.tag}> in ${e.inst.def.name}`, e.line, L.rel(e.h.inst.mod.path), () => sim.runEntry(e));
            for (const c of cbs) go(`${c.kind} ${c.event} callback ${I.fnName((c.fn.wraps || c.fn).node || c.node)}`, 0, L.rel(top.mod.path), () => sim.runCallback(c));
        });
    };
    for (const later of [true, false])
        run(false, later, (what, line, file, how, e) => R.violation({ file, line, key: `${top.def.name}|${what}|refused ${how}`, message: `${what} of ${top.def.name} ${how} at ${I.loc(e.node)} although ${name} refuses`, path: I.path() }));
    let moved = 0;
    run(true, true, () => moved++);
    if (!moved) R.violation({ file: L.rel(f), line: 0, key: `${top.def.name}|agreed`, message: `no user route of ${top.def.name} changes the value when ${name} agrees` });
    R.sample({ component: top.def.name, hook: name, value_cells: V.size });
    R.stats(I.stats);
}

// ---------------------------------------------------------------- the rendered dialog
function node(R, f, name) {
    const sim = new Sim({ decide: (v) => identities(v) });
    sim.load(f);
    const { I, top } = sim;
    const u = new Unit({}, I);
    const st = I.invoke(u.val('stores', 'useOverlayCallbackStore'), U, [], sim.state(), null)[0].v;
    const stacked = (s) => {
        const l = u.lists(s, st).filter((x) => x.elems)[0];
        return l ? l.elems : [];
    };
    const opened = (scn) =>
        sim.under(scn, () => {
            const s0 = sim.state();
            u.asBuilt(s0, st);
            let outs = [{ s: s0, v: U }];
            for (const h of sim.hooks('onMounted')) if (h.inst === top) outs = I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node));
            return sim.world.flush(sim.state(), outs.map((o) => ({ s: o.s, v: U })), [top]).filter((o) => stacked(o.s).length === 1);
        });
    const routes = (o) => {
        const rs = sim.b.entries.map((e) => [`@${e.event} on <${e.tag}> in ${e.inst.def.name}`, (s) => sim.world.runEntry(e, s)]);
        const tuple = I.getCell(o.s, stacked(o.s)[0].id);
        const held = [...(tuple.elems || []), ...(tuple.props ? tuple.props.values() : [])].find((x) => ['computed', 'ref', 'propref'].includes(x.k));
        for (const c of held ? I.readRef(o.s.clone(), held, null) : []) {
            const cell = c.v.k === 'obj' && I.getCell(c.s, c.v.id);
            for (const [n, fn] of cell ? cell.props : []) if (/^key-/.test(n) && isFn(fn)) rs.push([`pressing ${n.slice(4)}`, (s) => I.invoke(fn, U, [Sym('$event', { nonnull: true })], s, null), c.s]);
        }
        return rs;
    };
    const isMine = (n) => (inst, p) => (inst === top && p === name ? n : inst === top && p === 'id' ? Id('mine') : null);
    R.count('hooked_dialogs');
    for (const [answer, later] of [[false, true], [false, false], [true, true]]) {
        const scn = { props: isMine(hook(answer, later)) };
        let left = 0;
        const os = opened(scn);
        if (!os.length) throw new Error(`${top.def.name} never enters the overlay stack`);
        for (const o of os)
            for (const [what, run, from] of routes(o)) {
                R.count('routes');
                let closes = null;
                sim.under(scn, () =>
                    sim.during((e) => void (e.t === 'emit' && e.inst === top && e.name === 'close' && (closes = e)), () => {
                        const before = (from || o.s).clone();
                        const outs = sim.world.flush(before, run(before.clone()), [top]);
                        for (const x of outs) {
                            R.count('paths');
                            const gone = stacked(x.s).length !== 1;
                            if (gone) left++;
                            if (!answer && (gone || closes)) R.violation({ file: L.rel(f), line: 0, key: `${top.def.name}|${what}|refused`, message: `${what} closes ${top.def.name} although ${name} refuses` });
                        }
                    }),
                );
            }
        if (answer && !left) R.violation({ file: L.rel(f), line: 0, key: `${top.def.name}|agreed`, message: `no user route closes ${top.def.name} when ${name} agrees` });
    }
    R.stats(I.stats);
}

// ---------------------------------------------------------------- dialog component: hands the hook to the dialog it opens, follows a refusal
function opener(R, f, name) {
    const sim = new Sim({ keepEvent: (e) => e.t === 'call' && (e.name === 'open' || e.name === 'closeWithId') });
    sim.load(f);
    const { I, top } = sim;
    const h = hook(false, true);
    let opens = 0;
    R.count('hooked_dialogs');
    const bad = (key, message) => R.violation({ file: L.rel(f), line: 0, key: `${top.def.name}|${key}`, message: `${message} (${L.rel(f)})` });
    sim.under({ props: (inst, p) => (inst === top && p === name ? h : null) }, () => {
        for (const x of sim.watchers())
            for (const on of [TRUE, FALSE])
                sim.during((e, st) => {
                    if (e.t === 'call' && e.name === 'open' && e.args[1]) {
                        opens++;
                        R.count('routes');
                        const m = I.getMember(st.clone(), e.args[1], name, null, {});
                        if (!m.every((o) => o.v === h)) bad('hand over', `${top.def.name} opens its dialog without the ${name} it was given`);
                    }
                }, () => I.invoke(x.w.cb, U, [on, Lit(!on.v)], sim.state(), x.w.node));
    });
    if (!opens) bad('opens', `${top.def.name} opens no dialog`);
    // the application asks to close, the hook refuses: the dialog reports nothing closed
    for (const refused of [true, false]) {
        let closed = 0;
        sim.I.cfg.onOpaque = ({ name: n }, st) => (n === 'closeWithId' ? [{ s: st, v: { k: 'promise', v: Lit(!refused) } }] : null);
        for (const x of sim.watchers()) {
            if (!x.deps.has(`prop:${top.uid}.modelValue`)) continue;
            const cells = new Set();
            sim.during((e, st) => {
                const c = sim.cellOf(e);
                if (c && !sim.isNoop(e, st)) cells.add(e);
                if (e.t === 'emit' && e.inst === top && (e.name === 'close' || (e.name === 'update:modelValue' && !(e.args[0] && e.args[0].k === 'lit' && e.args[0].v === true)))) cells.add(e);
            }, () => {
                for (const o of I.invoke(x.w.cb, U, [FALSE, TRUE], sim.state(), x.w.node)) R.count('paths');
            });
            closed += cells.size;
            if (refused) for (const e of cells) bad('refused', `${top.def.name} reports a close at ${I.loc(e.node)} although the dialog refused`);
        }
        sim.I.cfg.onOpaque = undefined;
    }
    R.stats(I.stats);
}

// ---------------------------------------------------------------- plugins
function plugins(R) {
    const D = new Dialogs({ keepEvent: (e) => e.t === 'hook-asked' || (e.t === 'call' && e.f && e.f.cb) });
    const { u, I, CLOSE } = D;
    const file = u.val('plugins', 'createModalPlugin').mod.rel;
    const bad = (key, message, at) => R.violation({ file: at || file, line: 0, key: `plugin|${key}`, message: `${message} (${at || file})` });
    for (const [answer, later] of [[false, true], [false, false], [true, true], [true, false]]) {
        const h = hook(answer, later);
        for (const [label, act] of [['close', (s, p) => u.send(s, p, 'close', [Lit('body')])], ['closeWithId', (s, p) => u.send(s, p, 'closeWithId', [Lit('body'), Id('m')])]]) {
            const s0 = D.fresh();
            const p = D.plugin(s0, 'createModalPlugin');
            const open = (id, hk) => (s) => I.bind(u.send(s, p, 'open', [Sym('content', { nonnull: true }), I.mkObj(s, [['id', Id(id)], ...(hk ? [['beforeClose', hk]] : [])])]), (s2) => D.enter(s2, Id(id), D.cbs(s2, id, [CLOSE])));
            let outs = I.bind(open('older')(s0), open('m', h));
            outs = I.bind(outs, (s) => D.enter(s, Id('tip'), D.cbs(s, 'tip', [CLOSE])));
            R.count('routes');
            for (const o of I.bind(outs, (s) => act(s, p))) {
                R.count('paths');
                const asked = o.s.events().filter((e) => e.t === 'hook-asked').length;
                const got = [(D.dialogs(o.s, 'body') || []).join(), (D.stack(o.s) || []).join()].join(' / ');
                const want = answer ? 'older / older,tip' : 'older,m / older,m,tip';
                if (!asked) bad(`${label}|ask`, `modal ${label} does not ask beforeClose`);
                if (got !== want) bad(`${label}|${answer}|${later}`, `modal ${label} after beforeClose answered ${answer}: dialogs / stack are ${got} instead of ${want}`);
                const v = o.v && o.v.k === 'promise' ? o.v.v : o.v;
                if (!v || v.k !== 'lit' || v.v !== answer) bad(`${label}|answer ${answer}`, `modal ${label} reports ${v ? keyOf(v) : 'nothing'} after beforeClose answered ${answer}`);
                const ran = o.s.events().filter((e) => e.f && e.f.cb);
                if (!answer && ran.length) bad(`${label}|callbacks`, `modal ${label} runs callbacks although beforeClose refused`);
            }
        }
    }
    // every kind of dialog keeps the hook it was opened with
    const h = hook(false, true);
    for (const kind of ['createAlertPlugin', 'createConfirmPlugin', 'createPromptPlugin', null]) {
        const s0 = D.fresh();
        const modal = D.plugin(s0, 'createModalPlugin');
        const p = kind ? D.plugin(s0, kind, modal) : modal;
        R.count('routes');
        for (const o of u.send(s0, p, 'open', [Sym('content', { nonnull: true }), I.mkObj(s0, [['beforeClose', h]])])) {
            R.count('paths');
            const info = D.infos(o.s, 'body').slice(-1)[0];
            const m = info ? I.getMember(o.s, info, 'beforeClose', null, {})[0] : null;
            if (!m || m.v !== h) bad(`${kind}|kept`, `a dialog opened with a beforeClose does not keep it`, kind ? u.val('plugins', kind).mod.rel : file);
        }
    }
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    const w0 = new World({});
    for (const f of L.sourceFiles(L.UI).filter((x) => x.endsWith('.vue'))) {
        const def = compDef(w0.I, L.loadModule(f));
        for (const [n, d] of def.props) {
            if (!/^before[A-Z]/.test(n) || !d.types.includes('Function')) continue;
            if (n !== 'beforeClose') control(R, f, n);
            else if (def.props.has('modelValue')) opener(R, f, n);
            else node(R, f, n);
        }
    }
    plugins(R);
    R.require('hooked_controls', 3);
    R.require('hooked_dialogs', 1);
    R.require('hook_calls', 3);
    return R.result({
        rule: 'With the hook assumed to refuse, now or later, no path of any user entry (template listener of the component or a nested one, document listener, overlay key callback) may write value state, raise a value event, leave the overlay stack or announce a close; with the hook agreeing at least one route takes effect. The modal plugin must ask the hook and leave dialog list and stack unchanged on refusal.',
        explanation: 'Abstract interpretation of every component that takes a hook, found by its before* function props, and of the modal plugin and dialog plugins over opaque dialogs; the hook is a model that answers a constant directly or through a promise, so code that forgets to await it takes the promise for consent and is reported.',
        assumptions: ['clearing a container and the control\'s own clear method are application commands, not user routes'],
    });
};
