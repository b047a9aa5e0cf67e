'use strict';
// C13: every write of the selected index reachable from the user is guarded: it exists and is enabled, or nothing is selected.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, U, keyOf } = A;
const { Sim, isFn } = require('../lib/effects.cjs');
const { Unit } = require('../lib/unit.cjs');
const N = require('../lib/linear.cjs');
const { report } = require('../lib/report.cjs');

const SUBJECTS = [
    { comp: 'vs-tabs/VsTabs.vue', list: 'tabs' },
    { comp: 'vs-steps/VsSteps.vue', list: 'steps' },
    { comp: 'vs-pagination/VsPagination.vue', length: 'length' },
];

function subject(R, S, none) {
    const sim = new Sim({ keepEvent: (e) => e.t === 'write' }).load(L.path.join(L.UI, 'components', S.comp));
    const { I, top } = sim;
    const rel = L.rel(L.path.join(L.UI, 'components', S.comp));
    const name = top.uid;
    const prop = (n) => I.norm(sim.state(), top.readProp(n, sim.state(), I)[0].v);
    const items = S.list ? prop(S.list) : null;
    const len = S.list ? Sym(`${keyOf(items)}.length`) : prop(S.length);
    const off = keyOf(prop('disabled'));
    const vals = [...sim.cellsRaising((n) => n === 'update:modelValue')].map(([c]) => c).filter((c) => /^ref#/.test(c));
    const cells = new Set(vals.map((c) => Number(c.slice(4))));
    if (!cells.size) throw new Error(`no selected index found in ${rel}`);
    R.count('index_cells', cells.size);

    const isNone = (v) => v.k === 'lit' && v.v === none;
    const held = (v) => v.k === 'sym' && v.cellId !== undefined && cells.has(v.cellId);
    // comparisons on the path, and what a list position is by construction
    const known = (v, st) => {
        const fs = N.facts(I, st);
        for (const t of N.lin(v).t.keys()) {
            const m = /^for:[^:]*:(\w+)\.k$/.exec(t);
            const x = { k: 'sym', key: t };
            if (m && m[1] === S.list) fs.push(N.atLeast(x, 0), N.below(x, len));
        }
        return fs;
    };
    const entryKey = (v, st) => keyOf(I.getIndex(st.clone(), items, I.norm(st, v), null, {})[0].v);
    const inRange = (v, st) => {
        if (isNone(v)) return true;
        const fs = known(v, st);
        if (N.impossible(fs)) return true;
        if (N.implied(N.atLeast(v, 0), fs) && N.implied(N.below(v, len), fs)) return true;
        // the entry itself was looked at and is there
        const entry = items && entryKey(v, st);
        return !!items && (st.facts.get(entry) === true || st.facts.get(`(${entry}===undefined)`) === false);
    };
    const enabled = (v, st) => {
        if (isNone(v)) return true;
        const f = st.facts;
        const eq = f.get('=' + off);
        if (f.get(off) === false || (eq && eq.k === 'lit' && !eq.v)) return true;
        for (const [k, val] of f) {
            if (val !== false && val !== true) continue;
            const p = I.preds.get(k);
            if (!p) continue;
            const call = p.call ? p : p.eq && p.eq.of && p.eq.of.call ? p.eq.of : null;
            if (!call || !/\.disabled(\.value)?$/.test(call.call.fk || '')) continue;
            const says = call === p ? val : typeof p.eq.lit === 'boolean' ? val === p.eq.lit : null;
            if (says !== false) continue;
            const [item, index] = call.call.args;
            if (!index || keyOf(I.norm(st, index)) !== keyOf(I.norm(st, v))) continue;
            if (items && item && keyOf(item) !== entryKey(v, st)) continue;
            return true;
        }
        return false;
    };
    const touches = (e) => e.t === 'write' && cells.has(e.cell);
    for (const e of sim.b.entries) {
        R.count('user_entries');
        sim.during(
            (ev, st) => {
                if (!touches(ev)) return;
                const v = I.norm(st, ev.v);
                if (held(v)) return;
                R.count('writes');
                const where = I.loc(ev.node);
                const what = `${name}: ${e.event} sets the selected index to ${keyOf(v)}`;
                if (!inRange(v, st)) R.violation({ file: rel, line: e.line, key: `${name}|${e.event}|range|${keyOf(v)}`, message: `${what} without having established that it exists, at ${where}` });
                if (!enabled(v, st) && !N.impossible(N.facts(I, st))) R.violation({ file: rel, line: e.line, key: `${name}|${e.event}|disabled|${keyOf(v)}`, message: `${what} without having established that it is enabled, at ${where}` });
            },
            () => sim.runEntry(e),
        );
    }
    // a change of the list, or of the value the application gives, leaves the index inside
    const settle = (label, dep, value, sees) => {
        const ws = sim.watchers().filter((x) => x.inst === top && x.deps.has(dep) && (!sees || sees(x.w)));
        let outs = [{ s: sim.state(), v: U }];
        for (const x of ws) outs = I.bind(outs, (s) => sim.finish(I.invoke(x.w.cb, U, [value || Sym(`new#${x.w.id}`), Sym(`old#${x.w.id}`)], s, x.w.node)));
        R.count('changes');
        for (const o of outs)
            for (const c of cells) {
                R.count('settled_states');
                const cell = I.getCell(o.s, c);
                const v = I.norm(o.s, cell.value);
                if (!inRange(v, o.s)) R.violation({ file: rel, line: 0, key: `${name}|${label}|${held(v) ? 'held' : keyOf(v)}`, message: `${name}: after ${label} the selected index is ${held(v) ? 'what it was' : keyOf(v)}, not known to exist (${rel})` });
            }
    };
    // a watcher notices every change of the length when it watches the length, or the list in depth
    const whole = (w) => {
        if (!w.source) return true;
        return sim.world.sourceVals(w, sim.state()).every((o) =>
            (o.arr ? o.v : [o.v]).some((x) => {
                const v = I.norm(o.s, x);
                return keyOf(v) === keyOf(len) || (items && w.deep && keyOf(v) === keyOf(items));
            }),
        );
    };
    settle('a change of the list', `prop:${top.uid}.${S.list || S.length}`, null, whole);
    settle('a new value from the application', `prop:${top.uid}.modelValue`, prop('modelValue'));
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    const u = new Unit();
    const none = u.val('declaration', 'NOT_SELECTED').v;
    for (const S of SUBJECTS) subject(R, S, none);
    R.require('writes', 3);
    return R.result({
        rule: 'Each write of the selected index reached by a click or key is the nothing-selected marker, or the comparisons assumed on that path place it between zero and the list length and the application\'s disabled setting was found not to apply to that very position; after the list or the bound value changes the index is the marker or compared to lie inside.',
        explanation: 'Path-sensitive abstract interpretation of every user entry with list length, position and disabled predicate unknown; guards are read off the path as linear inequalities and predicate outcomes.',
        assumptions: ['positions are integers', 'a list and its disabled predicate do not change within one event'],
    });
};
