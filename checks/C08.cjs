'use strict';
// C08: what the application hands in is only read.
const path = require('path');
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit, U } = A;
const { ts } = L;
const { Sim, fnsIn } = require('../lib/effects.cjs');
const { Unit } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');

const CHANGES = ['mutate', 'set', 'delete', 'mapset', 'mapdelete', 'mapclear'];
// list operations whose result is a new list of the same elements
const COPIES = ['slice', 'filter', 'concat', 'flat', 'toSorted', 'toReversed', 'toSpliced', 'values', 'reverse', 'sort', 'entries', 'from'];
const PICKS = ['find', 'findLast', 'at', 'pop', 'shift', 'get'];

// Which values are data of the application (isData), and which containers of the library hold such data (holds).
class Aliases {
    constructor(I) {
        this.I = I;
        this.cells = new Map(); // cell -> {data, holds, names}
        this.changed = false;
    }
    note(id, st, v) {
        const c = this.cells.get(id) || { data: null, holds: null, names: new Map() };
        const before = `${!!c.data}${!!c.holds}${c.names.size}`;
        c.data = c.data || this.isData(st, v);
        c.holds = c.holds || this.holds(st, v);
        const cell = v && v.k === 'obj' ? this.I.getCell(st, v.id) : null;
        if (cell && cell.props) for (const [n, x] of cell.props) if (!c.names.has(n) && this.isData(st, x)) c.names.set(n, this.isData(st, x));
        this.cells.set(id, c);
        if (before !== `${!!c.data}${!!c.holds}${c.names.size}`) this.changed = true;
    }
    event(e, st) {
        if (e.t === 'write' && e.ref && e.ref.k === 'ref') this.note(e.cell, st, e.v);
        if (e.t === 'set' || e.t === 'mutate' || e.t === 'mapset') {
            const r = this.I.rootOf(e.target);
            const id = r && (r.k === 'ref' || r.k === 'obj' || r.k === 'arr' || r.k === 'map') ? r.id : null;
            if (id === null || id === undefined) return;
            const vals = e.t === 'set' ? [e.v] : e.t === 'mapset' ? [e.v || (e.args && e.args[1])] : e.args || [];
            for (const v of vals) {
                const d = this.isData(st, v);
                if (!d) continue;
                const c = this.cells.get(id) || { data: null, holds: null, names: new Map() };
                const n = e.t === 'set' && e.prop && e.prop.k === 'lit' ? String(e.prop.v) : null;
                const had = n ? c.names.has(n) : !!c.holds;
                if (n) c.names.set(n, d);
                else c.holds = c.holds || d;
                this.cells.set(id, c);
                if (!had) this.changed = true;
            }
        }
    }
    // the value is an object of the application: its origin, or null
    isData(st, v, d = 0) {
        if (!v || d > 14) return null;
        if (v.k === 'promise') return this.isData(st, v.v, d + 1);
        if (v.k !== 'sym') return null;
        if (v.data) return v.data;
        if (v.phi) return this.first(v.phi, (x) => this.isData(st, x, d + 1));
        if (v.propOf) return v.propOf.parent ? null : `prop ${v.prop}`;
        if (v.cellId) {
            const c = this.cells.get(v.cellId);
            return (c && c.data) || (v.init && v.init !== v ? this.isData(st, v.init, d + 1) : null);
        }
        if (v.elemOf) return this.holds(st, v.elemOf, d + 1);
        if (v.memberOf) return this.member(st, v.memberOf, this.nameOf(v), d + 1);
        if (v.call) {
            const { name, recv, args } = v.call;
            if (PICKS.includes(name) && recv) return this.holds(st, recv, d + 1);
            if ((name === 'toRaw' || name === 'reactive' || name === 'readonly' || name === 'unref' || name === 'toValue' || name === 'shallowReactive') && args && args[0]) return this.isData(st, args[0], d + 1);
        }
        if (v.awaited) return this.isData(st, v.awaited, d + 1);
        return null;
    }
    nameOf(v) {
        if (v.member !== undefined) return String(v.member);
        const k = keyOf(v);
        const m = k.match(/\.([\w$]+)$/);
        return m ? m[1] : null;
    }
    member(st, o, name, d) {
        const own = this.isData(st, o, d);
        if (own) return own;
        const r = this.I.rootOf(o);
        const c = r && r.id !== undefined ? this.cells.get(r.id) : null;
        if (c && name && c.names.has(name)) return c.names.get(name);
        if (o.k === 'obj') {
            const cell = this.I.getCell(st, o.id);
            if (cell && cell.props && name && cell.props.has(name)) return this.isData(st, cell.props.get(name), d + 1);
            if (cell && cell.spreads) return this.first(cell.spreads, (s) => this.isData(st, s.v, d + 1) || this.holds(st, s.v, d + 1));
            return null;
        }
        if (name && !/^\d+$/.test(name) && !(c && c.holds)) return null;
        return this.holds(st, o, d + 1);
    }
    first(xs, f) {
        for (const x of xs) {
            const r = f(x);
            if (r) return r;
        }
        return null;
    }
    // the value is, or is a list of, objects of the application
    holds(st, v, d = 0) {
        if (!v || d > 14) return null;
        const own = this.isData(st, v, d + 1);
        if (own) return own;
        if (v.k === 'arr' || v.k === 'map') {
            const c = this.I.getCell(st, v.id);
            const kept = this.cells.get(v.id);
            if (kept && kept.holds) return kept.holds;
            if (c && c.elems) return this.first(c.elems, (e) => (e.spreadOf ? this.holds(st, e.spreadOf, d + 1) : this.isData(st, e, d + 1)));
            return c && c.elem ? this.isData(st, c.elem, d + 1) : null;
        }
        if (v.k !== 'sym') return null;
        if (v.held) return v.held;
        if (v.phi) return this.first(v.phi, (x) => this.holds(st, x, d + 1));
        if (v.cellId) {
            const c = this.cells.get(v.cellId);
            return (c && c.holds) || (v.init && v.init !== v ? this.holds(st, v.init, d + 1) : null);
        }
        if (v.spreadOf) return this.holds(st, v.spreadOf, d + 1);
        if (v.elem) return this.isData(st, v.elem, d + 1);
        if (v.call) {
            const { name, recv, args } = v.call;
            if (COPIES.includes(name) && recv) return this.holds(st, recv, d + 1) || this.first(args || [], (a) => this.holds(st, a, d + 1));
            if (name === 'map' || name === 'flatMap') return v.cbVals ? this.first(v.cbVals, (x) => this.isData(st, x, d + 1) || (name === 'flatMap' ? this.holds(st, x, d + 1) : null)) : null;
        }
        if (v.derived && !Array.isArray(v.derived)) return this.holds(st, v.derived, d + 1);
        return null;
    }
}

class Inputs {
    constructor(R) {
        this.R = R;
    }
    judge(al, e, st, where) {
        const { I } = al;
        if (e.t === 'propwrite') return this.R.violation({ ...this.place(I, e, where), key: `${where.name} prop ${e.name}`, message: `${where.name} writes the property ${e.name} it was given` });
        if (!CHANGES.includes(e.t)) return;
        this.R.count('changes_seen');
        const d = al.isData(st, e.target);
        if (!d || where.allowed(e, d)) return;
        const how = e.t === 'mutate' ? `${e.name}()` : e.t === 'delete' ? 'a deletion' : 'an assignment';
        this.R.violation({ ...this.place(I, e, where), key: `${where.name} ${d} ${how}`, message: `${where.name} changes data it was given (${d}) by ${how}`, path: I.path ? I.path() : undefined });
    }
    // controls bound to one list of several values share that list: while it is being mounted, one that starts out
    // checked adds its value to it (each would otherwise replace what the others just added)
    shared(e, d) {
        const own = e.target.k === 'sym' && !e.target.memberOf && !e.target.elemOf && d === 'prop modelValue';
        if (!own || e.t !== 'mutate' || !['push', 'splice'].includes(e.name)) return false;
        this.R.count('shared_list_changes');
        return true;
    }
    place(I, e, where) {
        const l = e.node ? I.loc(e.node).split(':') : [where.file, 1];
        return { file: l[0], line: Number(l[1]) || 1 };
    }
    component(f) {
        const sim = new Sim();
        const { I } = sim;
        const al = new Aliases(I);
        const where = { file: L.rel(f), name: path.basename(f, '.vue'), mounting: true, allowed: (e, d) => where.mounting && this.shared(e, d) };
        this.R.count('components');
        const sink = (e, st) => {
            al.event(e, st);
            if (CHANGES.includes(e.t) || e.t === 'propwrite') this.judge(al, e, st, where);
        };
        sim.during(sink, () => {
            sim.load(f);
            // initial contents of the state set up
            sim.b.setupState.live.each((id, c) => {
                if (c.t === 'ref' && c.value) al.note(id, sim.b.setupState, c.value);
            });
            this.settings(sim);
            const cbs = sim.discover();
            for (let round = 0; round < 3; round++) {
                al.changed = false;
                where.mounting = true;
                const hook = (h) => (this.R.count('functions_followed'), sim.runFn(h.fn, [], null, h.node));
                sim.hooks('onBeforeMount', 'onMounted').forEach(hook);
                where.mounting = false;
                sim.hooks('onUpdated', 'onActivated', 'onBeforeUnmount', 'onUnmounted', 'onDeactivated').forEach(hook);
                for (const x of sim.watchers()) this.R.count('functions_followed'), this.watcher(sim, al, x);
                for (const e of sim.b.entries) this.R.count('functions_followed'), sim.runEntry(e);
                for (const c of cbs) this.R.count('functions_followed'), sim.runCallback(c);
                for (const m of sim.methods()) this.R.count('functions_followed'), sim.runMethod(m);
                for (const v of this.computeds(I, sim.state(), sim.top.ret)) this.R.count('functions_followed'), I.readRef(sim.state(), v, null);
                if (!al.changed) break;
            }
        });
        this.R.stats(I.stats);
    }
    // the application sets library-wide options through the framework object: where they are kept holds its data
    settings(sim) {
        const { I } = sim;
        for (const f of L.sourceFiles(path.join(L.UI, 'framework')).filter((x) => x.endsWith('.ts'))) {
            const mod = L.loadModule(f);
            for (const [name, d] of I.info(mod).decls) {
                if (d.kind !== 'class') continue;
                const v = I.modVar(mod, name);
                const st = sim.state();
                const o = I.instantiateShell(v, st);
                for (const out of I.construct(v, o, this.args(v.node.members.find((m) => ts.isConstructorDeclaration(m) && m.body)), st, null).slice(0, 1))
                    for (const m of v.node.members)
                        if (!out.c && ts.isSetAccessor(m) && m.body) I.callFn({ k: 'fn', node: m, scope: v.scope === undefined ? null : v.scope, mod: v.mod, cls: v }, o, this.args(m), out.s.clone(), m);
            }
        }
    }
    // a watcher is given what its source yields
    watcher(sim, al, x) {
        const { I } = sim;
        const { source: src, id, cb, node } = x.w;
        const values = (w) => {
            if (!w) return [];
            if (w.k === 'fn') return I.invoke(w, U, [], sim.state(), node).flatMap((o) => (o.c ? [] : [{ st: o.s, v: o.v }]));
            if (w.k === 'sym') return [{ st: sim.state(), v: w }];
            const st = sim.state();
            const r = I.readRef(st, w, node);
            return Array.isArray(r) ? r.map((o) => ({ st: o.s || st, v: o.v })) : r ? [{ st, v: r }] : [];
        };
        const given = (w, tag) => {
            const vs = values(w);
            const data = al.first(vs, (o) => al.isData(o.st, o.v));
            const held = data || al.first(vs, (o) => al.holds(o.st, o.v));
            return Sym(`${tag}#${id}`, { data: data || undefined, held: held || undefined });
        };
        const st = sim.state();
        const list = src && src.k === 'arr' ? I.elements(st, src) : null;
        const args = ['new', 'old'].map((t) => (list && list.every((e) => !e.spreadOf) ? I.mkArr(st, list.map((e, i) => given(e, `${t}${i}`))) : given(src, t)));
        sim.finish(I.invoke(cb, U, args, st, node));
    }
    computeds(I, st, v) {
        const c = v && v.k === 'obj' ? I.getCell(st, v.id) : null;
        return c && c.props ? [...c.props.values()].filter((x) => x && x.k === 'computed') : [];
    }
    // functions the application calls: plugins and the framework object
    plugins() {
        for (const dir of ['plugins', 'framework'])
            for (const f of L.sourceFiles(path.join(L.UI, dir)).filter((x) => x.endsWith('.ts') && !/stories|index\.ts$|types\.ts$/.test(x))) {
                const mod = L.loadModule(f);
                const u = new Unit({ keepEvent: () => false, mid: 60 });
                const { I } = u;
                for (const [name, d] of I.info(mod).decls) {
                    if (d.kind !== 'fn' && d.kind !== 'class') continue;
                    const al = new Aliases(I);
                    const where = { file: mod.rel, name, allowed: () => false };
                    u.sink = (e, st) => {
                        al.event(e, st);
                        this.judge(al, e, st, where);
                    };
                    const v = I.modVar(mod, name);
                    if (!v) continue;
                    this.R.count('plugin_entries');
                    const st = u.state();
                    const outs = d.kind === 'class' ? u.make(v, this.args(v.node.members.find((m) => ts.isConstructorDeclaration(m) && m.body)), st) : u.call(v, this.args(d.node), st);
                    for (const o of outs.slice(0, 6)) if (!o.c) this.members(u, o.s, o.v, d.kind === 'class' ? v : null);
                    u.sink = null;
                }
                this.R.stats(I.stats);
            }
    }
    args(node) {
        return node && node.parameters ? node.parameters.map((p) => Sym(`arg:${p.name.getText()}`, { nonnull: !p.questionToken, data: p.type && /\b(App|Element|HTMLElement|VNode|Ref)\b/.test(p.type.getText()) ? undefined : `argument ${p.name.getText()}` })) : [];
    }
    members(u, st, v, cls) {
        const fns = fnsIn(u.I, st, v, 2);
        if (cls) for (const m of cls.node.members) if ((ts.isMethodDeclaration(m) || ts.isSetAccessor(m)) && m.body) fns.push({ fn: { k: 'fn', node: m, scope: cls.scope === undefined ? null : cls.scope, mod: cls.mod, cls }, st, self: v });
        for (const m of fns) {
            const fn = m.fn.wraps || m.fn;
            if (!fn.node) continue;
            this.R.count('plugin_entries');
            const s = m.st.clone();
            for (const o of m.self ? u.I.callFn(m.fn, m.self, this.args(fn.node), s, fn.node) : u.I.invoke(m.fn, U, this.args(fn.node), s, fn.node)) if (!o.c && o.s.deferred.length) u.I.drain(o.s);
        }
    }
}

function run() {
    const R = report();
    const x = new Inputs(R);
    for (const f of L.sourceFiles(L.UI).filter((n) => n.endsWith('.vue'))) x.component(f);
    x.plugins();
    R.require('components', 40);
    R.require('functions_followed', 500);
    R.require('changes_seen', 100);
    R.require('plugin_entries', 10);
    return R.result({
        rule: 'No operation that changes an object in place (assignment to a member, deletion, mutating list, map or set operation) is applied to a property of a component, an argument of a plugin function, or anything reached from one, also through state that was set from it or lists that share its elements.',
        explanation: 'Alias analysis on top of abstract interpretation of every set-up, hook, watcher, template listener, registered callback, exposed function and computed value: each change is traced back to where its target comes from; state cells remember whether what was ever written to them is, or shares elements with, data of the application.',
        assumptions: ['External libraries do not change what they are given.'],
    });
}
module.exports = { run };
