'use strict';
// C01: while disabled / read-only (own flag or form-wide), no user-reachable path changes the value or announces a change.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, TRUE, St, keyOf } = A;
const { World, compDef } = require('../lib/component.cjs');
const { Sim, formPins } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

const isValueEvent = (def) => (n) => {
    if (!n) return false;
    if (n === 'change' || n === 'toggle') return true;
    const m = /^update:(.+)$/.exec(n);
    return !!m && !['changed', 'valid'].includes(m[1]) && def.props.has(m[1]);
};

function analyse(sim, scnName, scn, R) {
    const { I, top, b } = sim;
    const isEvent = isValueEvent(top.def);
    const V = sim.cellsRaising(isEvent);
    const cbs = sim.discover().filter((c) => c.kind === 'listener' || c.kind === 'key');
    R.count('value_cells', V.size);
    sim.under(scn, () => {
        const check = (what, line, file, run) => {
            R.count('entries_run', 1);
            const sink = (e, st) => {
                if (e.t === 'emit' && e.inst === top && isEvent(e.name)) R.violation({ file: L.rel(top.mod.path), line, key: `${top.def.name}|${what}|raises ${e.name}`, message: `${what} of ${scnName} ${top.def.name} raises ${e.name} at ${I.loc(e.node)}`, path: I.path() });
                else {
                    const c = sim.cellOf(e);
                    if (c && V.has(c) && !sim.isNoop(e, st)) R.violation({ file, line, key: `${top.def.name}|${what}|writes ${e.name && e.t === 'write' ? e.name : 'value'}`, message: `${what} of ${scnName} ${top.def.name} changes the value at ${I.loc(e.node)} (announced by the watcher at ${V.get(c).join(' -> ')})`, path: I.path() });
                }
            };
            const outs = sim.during(sink, run);
            R.count('paths', outs.length);
        };
        for (const e of b.entries) {
            if (e.h.inst === top.parent) continue;
            check(`@${e.event}${e.mods.length ? '.' + e.mods.join('.') : ''} on <${e.tag}> in ${e.inst.def.name}`, e.line, L.rel(e.h.inst.mod.path), () => sim.runEntry(e));
        }
        for (const c of cbs) check(`${c.kind} ${c.event} callback ${I.fnName((c.fn.wraps || c.fn).node || c.node)}`, 0, L.rel(top.mod.path), () => sim.runCallback(c));
    });
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    const w0 = new World({});
    const files = L.sourceFiles(L.UI).filter((f) => f.endsWith('.vue'));
    const formFile = files.find((f) => compDef(w0.I, L.loadModule(f)).name === 'VsForm');
    for (const f of files) {
        const def = compDef(w0.I, L.loadModule(f));
        const flags = ['disabled', 'readonly'].filter((p) => def.props.has(p) && def.props.get(p).isBool);
        const evs = def.emits ? [...def.emits].filter(isValueEvent(def)) : [];
        if (!flags.length || !evs.length) continue;
        R.count('components', 1);
        const sim = new Sim().load(f);
        for (const flag of flags) {
            R.count('scenarios', 1);
            analyse(sim, flag, { props: (inst, name) => (inst === sim.top && name === flag ? TRUE : null) }, R);
        }
        // inside a form that is disabled / read-only
        if (!formFile) continue;
        const fs = new Sim();
        const form = fs.world.mount(L.loadModule(formFile), new St(), {});
        const n0 = fs.world.instances.length;
        let injects = false;
        fs.during(
            (e) => {
                if (e.t === 'inject' && form.inst.provided.has(e.key) && fs.world.cur && fs.world.cur.def.name === def.name) injects = true;
            },
            () => {
                const mod = L.loadModule(f);
                const { st, inst } = fs.world.mount(mod, form.st, { parent: form.inst, isTop: true });
                const ctx = fs.world.expand(st, inst, 0);
                fs.b = { mod, inst, entries: ctx.entries, elements: ctx.elements || [], setupState: ctx.st, frozen: fs.I.freeze(ctx.st), all: fs.world.instances.slice(n0) };
                fs.top = inst;
            },
        );
        if (!injects) continue;
        R.count('form_controls', 1);
        for (const flag of flags) {
            const alts = formPins(fs, form.inst, form.st, flag);
            const seen = new Set();
            for (const { later, pins } of alts) {
                const k = [...pins].map(([a, v]) => a + '=' + keyOf(v)).join();
                if (seen.has(k)) continue;
                seen.add(k);
                R.count('scenarios', 1);
                analyse(fs, `form-${flag}${later ? ' (switched on later)' : ''}`, { props: (inst, name) => (inst === form.inst && name === flag ? TRUE : null), pins }, R);
            }
        }
    }
    R.require('components', 10);
    R.require('form_controls', 5);
    return R.result({
        rule: 'For every component with a disabled/read-only flag: no feasible path of any user entry (template listener of it or of a nested control, document/window listener, overlay key callback, timers they start) raises a value event of it or writes state that its watchers announce as a value event, with the flag assumed true (own prop, or the store cells the form sets).',
        explanation: 'Path-sensitive abstract interpretation of every user-reachable handler with the flag pinned on; native disabled/readonly elements, v-if and v-show conditions gate the entries.',
        assumptions: ['a user cannot trigger events on native elements whose disabled attribute holds', 'methods exposed to the application are not user entries'],
    });
};
