'use strict';
// C05: what an evaluation of rules or messages publishes after an await must be guarded by a test that no newer
// evaluation started; every change of the value, the rules or the messages starts an evaluation of the current value.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, keyOf } = A;
const { World, compDef } = require('../lib/component.cjs');
const { Sim } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

const WRITES = new Set(['write', 'assign', 'set', 'mutate', 'mapset', 'mapdelete', 'delete']);

function analyse(f, def, R) {
    const atoms = new Map();
    const sim = new Sim({ havocOnAwait: true, keepEvent: (e) => WRITES.has(e.t) || e.t === 'await' || (e.t === 'call' && e.f && (e.f.supplied || e.f.own)) || e.t === 'emit' }).load(f);
    const { I, top } = sim;
    const assume = I.assume;
    I.assume = (st, v, b) => {
        atoms.set(v.key, v);
        return assume.call(I, st, v, b);
    };
    const given = (name) => (def.props.has(name) ? Sym(`given ${name}`, { nonnull: true, supplied: name }) : null);
    const fns = { rules: given('rules'), messages: given('messages') };
    const scn = {
        props: (inst, name, st) => {
            if (inst !== top || !fns[name]) return null;
            return I.mkArr(st, [fns[name]]);
        },
    };
    // the place an effect changes, independent of the moment
    const place = (e) => {
        if (e.t === 'assign') return `var:${e.name}#${e.scope}`;
        const c = sim.cellOf(e);
        if (c) return c;
        if (e.t === 'set' && e.target && e.target.k === 'obj') return `field:${e.prop && e.prop.v}#${e.target.id}`;
        return null;
    };
    const nowOf = (v, st) => {
        if (v.k !== 'sym') return null;
        const tag = '@' + st.epoch;
        if (v.varOf && v.key.endsWith(tag)) return v.key.slice(0, -tag.length);
        if (v.cellId && v.key.endsWith(tag)) return 'ref#' + v.cellId;
        if (/^field:/.test(v.key) && v.key.endsWith(tag)) return v.key.slice(0, -tag.length);
        return null;
    };
    const unique = (v, pl) => {
        // a value no other evaluation has: a step of a counter, or a new object
        if (v.k === 'obj' || v.k === 'arr' || v.k === 'map' || v.k === 'fn') return true;
        if (v.k === 'sym' && (v.newOf || /^symbol#|^new:/.test(v.key))) return true;
        return v.k === 'sym' && v.arith && (v.arith.op === '+' || v.arith.op === '-') && [v.arith.a, v.arith.b].some((x) => x.k === 'lit' && typeof x.v === 'number' && x.v !== 0);
    };
    const guarded = (st) => {
        const evs = st.events();
        let last = -1;
        evs.forEach((e, i) => e.t === 'await' && (last = i));
        const tokens = evs.slice(0, last + 1).filter((e) => WRITES.has(e.t) && e.v && unique(e.v));
        for (const [k, b] of st.facts) {
            const v = atoms.get(k);
            if (!v || typeof b !== 'boolean') continue;
            const rel = v.cmp && b ? v.cmp : v.lt && !b ? v.lt : null;
            if (!rel) continue;
            for (const [x, y] of [[rel.a, rel.b], [rel.b, rel.a]]) {
                const pl = nowOf(x, st);
                if (pl && tokens.some((t) => place(t) === pl && keyOf(t.v) === keyOf(y))) return pl;
            }
        }
        return null;
    };
    const tokens = new Map(); // what tells the evaluations apart: kind -> places
    const runs = []; // every path that evaluates: kind, what started it, places it steps on
    const seenLate = new Set(); // whose asynchronous result is published
    const awaiting = (st) => {
        let a = null;
        for (const e of st.events()) if (e.t === 'call' && e.f.supplied) a = e.f.supplied;
        return a;
    };
    const sink = (e, st) => {
        if (e.t === 'call' && e.f && e.f.supplied && e.args[0] && e.args[0].k === 'sym' && e.args[0].key.startsWith('old#')) R.violation({ file: L.rel(top.mod.path), key: `${I.loc(e.node)}|old value`, message: `the ${e.f.supplied} of ${def.name} are asked about the previous value at ${I.loc(e.node)}`, path: I.path() });
        if (!WRITES.has(e.t)) return;
        const pl = place(e);
        // results are added to a list that this evaluation started afresh
        if (e.t === 'mutate' && pl && awaiting(st)) {
            const evs = st.events();
            if (!evs.some((x) => x !== e && x.t === 'write' && place(x) === pl)) R.violation({ file: L.rel(top.mod.path), key: `${I.loc(e.node).replace(/:\d+$/, '')}|kept ${awaiting(st)}`, message: `results of the ${awaiting(st)} evaluation of ${def.name} are added at ${I.loc(e.node)} to those of earlier evaluations`, path: I.path() });
        }
        if (!I.isLate(st)) return;
        if (!pl || (e.t === 'assign' && !e.modvar && !sim.b.frozen.frozen.get(e.scope))) return;
        const which = awaiting(st);
        if (!which) return;
        seenLate.add(which);
        R.count('late_writes', 1);
        const by = guarded(st);
        if (by) {
            if (!tokens.has(which)) tokens.set(which, new Set());
            tokens.get(which).add(by);
            return;
        }
        R.violation({ file: L.rel(top.mod.path), key: `${I.loc(e.node).replace(/:\d+$/, '')}|stale ${which}|${e.t}`, message: `the result of an older ${which} evaluation of ${def.name} is published at ${I.loc(e.node)} although a newer evaluation may have started`, path: I.path() });
    };
    const started = (outs, what, need, filter) => {
        for (const o of outs) {
            const evs = o.s.events();
            if (filter && !filter(evs)) continue;
            R.count('trigger_paths', 1);
            for (const n of need) {
                const call = evs.find((e) => e.t === 'call' && e.f.supplied === n);
                if (call) runs.push({ n, what, at: I.loc(call.node), steps: new Set(evs.filter((e) => WRITES.has(e.t) && e.v && unique(e.v)).map(place)) });
                const hit = evs.find((e) => (e.t === 'call' && e.f.supplied === n) || (n === 'messages' && WRITES.has(e.t) && (e.args || [e.v]).some((a) => a && a.supplied === n)));
                if (!hit) R.violation({ file: L.rel(top.mod.path), key: `${def.name}|no ${n} evaluation|${what.replace(/:\d+/, '')}`, message: `${what} of ${def.name} leaves ${n} unevaluated on some path, so an older verdict stays`, path: [] });
            }
        }
    };
    sim.under(scn, () =>
        sim.during(sink, () => {
            const names = Object.keys(fns).filter((n) => fns[n]);
            // mounted
            const hooks = sim.hooks('onBeforeMount', 'onMounted').filter((h) => h.inst === top);
            let outs = [{ s: sim.state(), v: A.U }];
            for (const h of hooks) outs = I.bind(outs, (s) => sim.runFn(h.fn, [], s, h.node));
            R.count('triggers', 1);
            started(outs, 'mounting', names);
            for (const x of sim.watchers()) {
                if (x.inst !== top) continue;
                const res = sim.runWatcher(x);
                R.count('watchers', 1);
                const where = `the watcher at ${I.loc(x.w.node)}`;
                // watchers that announce the value
                started(res, where, names, (evs) => evs.some((e) => e.t === 'emit' && e.inst === top && e.name === 'update:modelValue'));
            }
            // a change of the supplied functions themselves
            for (const n of names) {
                const ws = sim.watchers().filter((x) => x.inst === top && x.deps.has(`prop:${top.uid}.${n}`));
                const hit = ws.some((x) => sim.runWatcher(x).some((o) => o.s.events().some((e) => (e.t === 'call' && e.f.supplied === n) || (WRITES.has(e.t) && (e.args || [e.v]).some((a) => a && a.supplied === n)))));
                R.count('triggers', 1);
                if (!hit) R.violation({ file: L.rel(top.mod.path), key: `${def.name}|${n} change`, message: `a change of the ${n} given to ${def.name} starts no evaluation`, path: [] });
            }
            for (const m of sim.methods()) if (m.name === 'clear' || m.name === 'validate') sim.runMethod(m);
        }),
    );
    // every evaluation makes older ones stale, also one that has nothing to wait for
    for (const [n, places] of tokens) {
        const mine = runs.filter((r) => r.n === n);
        R.count('evaluations', mine.length);
        if ([...places].some((p) => mine.every((r) => r.steps.has(p)))) continue;
        const r = mine.find((x) => ![...places].some((p) => x.steps.has(p))) || mine[0];
        R.violation({ file: L.rel(top.mod.path), key: `${def.name}|unmarked ${n}`, message: `an evaluation of the ${n} of ${def.name} (${r.what}, ${r.at}) does not make an older pending one stale, so the older result is published over it`, path: [] });
    }
    for (const n of Object.keys(fns)) if (fns[n] && !seenLate.has(n)) R.violation({ file: L.rel(top.mod.path), key: `${def.name}|dropped ${n}`, message: `no path publishes the asynchronous ${n} result of the latest evaluation of ${def.name}`, path: [] });
    R.count('late_sources', seenLate.size);
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    const w0 = new World({});
    for (const f of L.sourceFiles(L.UI).filter((x) => x.endsWith('.vue'))) {
        const def = compDef(w0.I, L.loadModule(f));
        if (!def.props.has('rules') || !def.emits || !def.emits.has('update:modelValue')) continue;
        R.count('components', 1);
        analyse(f, def, R);
    }
    R.require('components', 5);
    R.require('late_writes', 1);
    return R.result({
        rule: 'In every control with rules or messages: (1) each write to shared state that follows an await of a supplied rule or message lies on a path where a per-evaluation token, changed when an evaluation starts, was compared with its current value after that await and found unchanged; (2) some such path publishes the result; (3) mounting, each announced value change and each change of the supplied functions start an evaluation.',
        explanation: 'Flow analysis over the abstract semantics of every control that takes rules: set-up, mount hooks, watchers and the validate/clear methods are interpreted with one unknown supplied rule and one unknown supplied message; at each await all shared state becomes unknown, so whatever is decided afterwards must come from a comparison made after it.',
        assumptions: ['rule and message functions are unknown and do not call back into the control', 'a counter step or a new object distinguishes evaluations'],
    });
};
