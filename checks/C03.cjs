'use strict';
// C03: what a component takes outside itself is given back when it is unmounted.
const path = require('path');
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, U, Sym } = A;
const { Sim } = require('../lib/effects.cjs');
const { Unit, Id } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');

const isFn = (v) => v && (v.k === 'fn' || v.wraps);
const LATER = ['setTimeout', 'setInterval'];
const UNMOUNT = ['onBeforeUnmount', 'onUnmounted', 'onScopeDispose'];

class Life {
    constructor(R, f) {
        this.R = R;
        this.file = L.rel(f);
        this.name = path.basename(f, '.vue');
        this.keep = () => false;
        this.keepFact = null;
        this.store = new Map(); // reference cell of a surrounding component -> contents it was created with
        const self = this;
        this.sim = new Sim({ keepEvent: (e) => self.keep(e), keepFact: (k) => (self.keepFact ? self.keepFact(k) : true) });
        const { I } = this.sim;
        this.I = I;
        this.sim.during(
            (e, st) => e.t === 'inject' && e.args[1] && this.outside(st, e.args[1]),
            () => this.sim.load(f),
        );
        R.count('components');
    }
    // reference cells of an object provided by a surrounding component
    outside(st, v, d = 3) {
        const { I } = this;
        if (!v || d < 0) return;
        if (v.k === 'ref') {
            const c = I.getCell(st, v.id);
            if (c) this.store.set(v.id, { v: c.value, st: st.clone() });
        } else if (v.k === 'obj') {
            const c = I.getCell(st, v.id);
            if (c && c.props) for (const x of c.props.values()) this.outside(st, x, d - 1);
        }
    }
    shared(v) {
        const r = this.I.rootOf(v);
        return r && r.k === 'ref' && this.I.root.get(r.id) ? r.id : null;
    }
    provided(v) {
        const r = v && v.k === 'ref' ? v : this.I.rootOf(v);
        return r && r.k === 'ref' && this.store.has(r.id) ? r.id : null;
    }
    // global objects and what is looked up from them, as opposed to elements of the component
    external(v) {
        if (!v) return false;
        if (v.k === 'ns') return true;
        if (v.k !== 'sym') return false;
        if (v.cellId || v.propOf) return false;
        if (v.varOf || v.varId) return 'var';
        return /^global:/.test(keyOf(v));
    }
    // what an event takes or gives back: {kind, take, site, id: [values]}
    act(e, st) {
        const { I } = this;
        if (e.t === 'call' && (e.name === 'addEventListener' || e.name === 'removeEventListener')) {
            const to = e.recv || e.target;
            const x = this.external(to);
            if (!x) return null;
            const o = e.args[2] ? I.norm(st, e.args[2]) : null;
            let capture = o && o.k === 'lit' ? !!o.v : false;
            if (o && o.k === 'obj') {
                const c = I.getCell(st, o.id);
                const p = c && c.props.get('capture');
                capture = !!(p && p.k === 'lit' && p.v);
            }
            return { kind: 'listener', take: e.name[0] === 'a', what: `${keyOf(e.args[0])}${capture ? ' (capture)' : ''}`, id: [to, e.args[1]], maybe: x === 'var' };
        }
        if (e.t === 'call' && e.name === 'observe') return { kind: 'observer', take: true, what: '', id: [e.recv || e.target] };
        if (e.t === 'call' && e.name === 'disconnect') return { kind: 'observer', take: false, what: '', id: [e.recv || e.target] };
        if (e.t === 'timer' && e.key === 'setInterval') return { kind: 'interval', take: true, what: '', id: [e.v] };
        if (e.t === 'timer' && e.key === 'setTimeout' && this.takers && this.takers.has(e.node)) return { kind: 'timer', take: true, what: '', id: [e.v] };
        if (e.t === 'clear') return { kind: /Interval/.test(e.key) ? 'interval' : 'timer', take: false, what: '', id: [e.args[0]] };
        if (e.t === 'mutate' && (e.name === 'push' || e.name === 'unshift') && this.shared(e.target) !== null) {
            const el = e.args[0];
            const es = el && el.k === 'arr' ? I.elements(st, el) : null;
            return { kind: 'entry', take: true, what: `#${this.shared(e.target)}`, id: [es ? es[0] : el] };
        }
        if (e.t === 'mutate' && e.name === 'splice' && this.shared(e.target) !== null) {
            const id = this.searched(st, e.args[0]);
            if (!id && /loop:/.test(keyOf(e.args[0] || U))) return { kind: 'entry', take: false, what: `#${this.shared(e.target)}`, id: [] };
            return id ? { kind: 'entry', take: false, what: `#${this.shared(e.target)}`, id: [id] } : null;
        }
        if (e.t === 'write' && e.ref && e.ref.k === 'ref' && I.root.get(e.ref.id) && e.v && e.v.tested) {
            const id = this.searched(st, e.v, true);
            return id ? { kind: 'entry', take: false, what: `#${e.ref.id}`, id: [id] } : null;
        }
        if (e.t === 'set' && this.provided(e.target) !== null) return { kind: 'registration', take: true, what: `#${this.provided(e.target)}`, id: [e.prop] };
        if (e.t === 'delete' && this.provided(e.target) !== null) return { kind: 'registration', take: false, what: `#${this.provided(e.target)}`, id: [e.prop] };
        if (e.t === 'write' && this.provided(e.ref) !== null && this.record(e.ref.id)) {
            // entries of a collection replaced as a whole
            const what = `#${e.ref.id}`;
            const rest = (v) => {
                if (!v || v.k !== 'sym') return null;
                const o = (v.omit || []).filter((k) => k[0] === '[');
                return o.length ? o[o.length - 1].slice(1, -1) : null;
            };
            const c = e.v && e.v.k === 'obj' ? I.getCell(st, e.v.id) : null;
            const gone = rest(e.v) || (c && c.spreads && c.spreads.map((x) => rest(x.v)).find(Boolean));
            if (gone) return { kind: 'registration', take: false, what, id: [{ k: 'sym', key: gone }] };
            const key = c && [...c.props.keys()].filter((k) => k[0] === '[').pop();
            return key ? { kind: 'registration', take: true, what, id: [this.I.preds.get(key.slice(1, -1)) || this.propSym(key.slice(1, -1))] } : e.v && e.v.k === 'sym' ? { kind: 'registration', take: false, what, id: [] } : null;
        }
        if (e.t === 'write' && this.provided(e.ref) !== null) {
            const r = this.contribution(st, e.ref.id, e.v);
            return { kind: 'contribution', take: !r.initial, what: `#${e.ref.id}`, id: r.id };
        }
        return null;
    }
    // state of a surrounding component that starts as an empty collection
    record(id) {
        const { v, st } = this.store.get(id);
        const c = v && v.k === 'obj' ? this.I.getCell(st, v.id) : null;
        return !!c && !!c.props && !c.props.size && !c.cls;
    }
    propSym(key) {
        const m = /^prop:\w+\.(\w+)$/.exec(key);
        return { k: 'sym', key, ...(m ? { propOf: this.sim.top, prop: m[1] } : {}) };
    }
    // the value a search through a list compares with
    searched(st, v, others = false) {
        const side = (x, negated = false) => {
            for (; x && x.k === 'not'; x = x.v) negated = !negated;
            if (negated !== others) return null;
            const c = x && x.cmp ? [x.cmp.a, x.cmp.b] : null;
            return c ? c.find((y, i) => this.fromShared(c[1 - i]) && !this.fromShared(y)) : null;
        };
        for (const x of (v && v.tested) || []) {
            const r = side(x);
            if (r) return r;
        }
        for (const [key, b] of st.facts) {
            const r = b === true && !others ? side(this.I.preds.get(key)) : null;
            if (r) return r;
        }
        return null;
    }
    fromShared(v, d = 0) {
        if (!v || d > 8) return false;
        if (v.k === 'ref') return !!this.I.root.get(v.id);
        if (v.k !== 'sym') return false;
        if (v.cellId && this.I.root.get(v.cellId)) return true;
        return [v.memberOf, v.elemOf, v.derived, v.of].some((x) => x && typeof x === 'object' && this.fromShared(x, d + 1)) || this.shared(v) !== null;
    }
    // a value written to the state of a surrounding component: is it what was there at the start, and which part is it
    contribution(st, cell, v) {
        const { I } = this;
        const init = this.store.get(cell);
        const c = v && v.k === 'obj' ? I.getCell(st, v.id) : null;
        const first = init.v && init.v.k === 'obj' ? I.getCell(init.st, init.v.id) : null;
        if (!c || !first) return { initial: v && keyOf(v) === keyOf(init.v), id: [] };
        const dyn = [...c.props].filter(([k]) => /^\[/.test(k)).slice(-1); // earlier ones are what was there before
        if (dyn.length) {
            const parts = [...first.props.values()].map((p) => (p.k === 'obj' ? I.getCell(init.st, p.id) : null)).filter(Boolean);
            const initial = dyn.every(([k, x]) => {
                const o = x.k === 'obj' ? I.getCell(st, x.id) : null;
                return o && parts.length && parts.every((p) => this.same(p, o, (n, y) => `[${keyOf(y)}]` === k));
            });
            const keyed = dyn.map(([k]) => (c.keys && c.keys.get(k)) || [...c.props.values()].flatMap((x) => (x.k === 'obj' ? [...(I.getCell(st, x.id) || { props: new Map() }).props.values()] : [])).find((y) => `[${keyOf(y)}]` === k));
            return { initial, id: keyed.filter(Boolean) };
        }
        return { initial: this.same(first, c, () => false), id: [] };
    }
    same(a, b, skip) {
        return [...a.props].every(([n, x]) => {
            const y = b.props.get(n);
            return y && ((x.k === 'lit' && y.k === 'lit' && x.v === y.v) || skip(n, y));
        });
    }
    finish(outs, tasks) {
        const { I } = this;
        const drop = (s) => {
            for (const d of s.deferred) if (LATER.includes(d.kind) && tasks) tasks(d, s);
            s.deferred = s.deferred.filter((d) => !LATER.includes(d.kind));
        };
        let cur = outs.map((o) => ({ s: o.s }));
        for (let i = 0; i < 8; i++) {
            for (const o of cur) drop(o.s);
            if (!cur.some((o) => o.s.deferred.length)) break;
            cur = I.compact(I.bind(cur, (s) => (s.deferred.length ? ((d) => ((s.deferred = s.deferred.slice(1)), I.invoke(d.fn, U, d.args || [], s, d.node).map((o) => ({ s: o.s }))))(s.deferred[0]) : [{ s }])));
        }
        for (const o of cur) drop(o.s);
        return cur;
    }
    // every function that runs on its own: [{label, node, run(tasks) -> states}]
    tasks() {
        if (this._tasks) return this._tasks;
        const { sim, I } = this;
        const out = [];
        const top = sim.top;
        const args = (fn) => (((fn.wraps || fn).node || {}).parameters || []).map((p, i) => Sym(`arg:${p.name.getText()}.${i}`));
        const fnTask = (label, fn, a, st, node, extra) => out.push({ label, node, ...extra, run: (t) => this.finish(I.invoke(fn, U, a, st ? st.clone() : sim.state(), node || null), t) });
        for (const h of sim.hooks('onBeforeMount', 'onMounted', 'onUpdated', 'onActivated')) if (h.inst === top) fnTask(h.name, h.fn, [], null, h.node);
        for (const x of sim.watchers()) if (x.inst === top) fnTask('watcher', x.w.cb, [Sym(`new#${x.w.id}`), Sym(`old#${x.w.id}`)], null, x.w.node, { w: x });
        for (const e of sim.b.entries) out.push({ label: `${e.event} listener`, node: null, run: (t) => this.finish(sim.world.runEntry(e, sim.state()), t) });
        for (const m of sim.methods()) fnTask(m.name, m.fn, args(m.fn), m.st, (m.fn.wraps || m.fn).node);
        // callbacks handed out while those run
        const seen = new Map();
        const add = (kind, fn, node, st) => {
            const k = kind + keyOf(fn.wraps || fn) + (node ? I.loc(node) : '');
            if (!seen.has(k)) seen.set(k, { kind, fn, node, st: I.freeze(st.clone()) });
        };
        const sink = (e, st) => {
            if (e.t === 'call' && e.name === 'addEventListener' && isFn(e.args[1])) add('listener', e.args[1], e.node, st);
            else if (e.t === 'new') for (const a of e.args || []) if (isFn(a)) add('observer', a, e.node, st);
        };
        const later = (d, s) => add(d.kind, d.fn, d.node, s);
        sim.during(sink, () => {
            for (const t of [...out]) t.run(later);
            for (let round = 0, done = new Set(); round < 3; round++)
                for (const [k, c] of [...seen]) {
                    if (done.has(k)) continue;
                    done.add(k);
                    const a = args(c.fn);
                    const t = { label: c.kind, node: c.node, timer: LATER.includes(c.kind) ? c.node : null, run: (t2) => this.finish(I.invoke(c.fn, U, a, c.st.clone(), c.node || null), t2) };
                    out.push(t);
                    t.run(later);
                }
        });
        this._tasks = out;
        return out;
    }
    unmount() {
        const { sim, I } = this;
        let outs = [{ s: sim.state() }];
        for (const n of UNMOUNT) for (const h of sim.hooks(n)) if (h.inst === sim.top) outs = I.compact(this.finish(I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node).map((o) => ({ s: o.s })))));
        return outs;
    }
    // sites where something is taken, by kind and what
    takes() {
        const found = new Map();
        const tasks = this.tasks();
        const scan = () => {
            let cur = null;
            const sink = (e, st) => {
                const a = this.act(e, st);
                if (!a || !a.take) return;
                const k = `${a.kind} ${a.what} ${e.node ? this.I.loc(e.node) : ''}`;
                if (!found.has(k)) found.set(k, { ...a, node: e.node, tasks: new Set() });
                found.get(k).tasks.add(cur);
            };
            this.sim.during(sink, () => {
                for (const t of tasks) {
                    cur = t;
                    t.run();
                }
            });
        };
        scan();
        // timers whose callback takes something
        this.takers = new Set();
        for (;;) {
            const n = this.takers.size;
            for (const r of found.values()) for (const t of r.tasks) if (t.timer) this.takers.add(t.timer);
            if (this.takers.size === n) break;
            scan();
        }
        return [...found.values()];
    }
    describe(r) {
        return { listener: `listener for ${r.what}`, observer: 'observer', interval: 'repeating timer', timer: 'timer that takes something outside later', entry: 'entry on the overlay stack', registration: 'registration with a surrounding component', contribution: 'contribution to a surrounding component' }[r.kind];
    }
    // the cell a value was read from at a later moment
    holder(v) {
        if (!v || v.k !== 'sym') return null;
        if (v.cellId) return `ref#${v.cellId}`;
        const m = /^var:([\w$]+)#(\d+)$/.exec(keyOf(v));
        return m ? `var#${m[2]}.${m[1]}` : null;
    }
    holderOf(e) {
        if (e.t === 'assign') return `var#${e.scope}.${e.name}`;
        if (e.t === 'write' && e.ref && e.ref.k === 'ref') return `ref#${e.ref.id}`;
        return null;
    }
    // a value that is the same object at every moment
    stable(v, asked) {
        if (!v) return false;
        if (v.k === 'fn' || v.k === 'lit' || v.k === 'ns') return true;
        if (v.k === 'sym' && v.wrapper) return true;
        if (v.k === 'sym' && /^global:[\w.]+$/.test(keyOf(v))) return true;
        return v.k === 'sym' && !this.holder(v) && !v.propOf && !asked.has(keyOf(v));
    }
    check() {
        const { R, I } = this;
        const found = this.takes();
        R.count('functions_followed', this.tasks().length);
        for (const r of found) {
            R.count('acquisitions');
            R.sample(`${this.name}: ${this.describe(r)} at ${r.node ? I.loc(r.node) : this.file}`);
        }
        const done = new Set();
        for (const r of found) {
            const k = `${r.kind} ${r.what}`;
            if (r.kind === 'listener' || r.kind === 'observer' || r.kind === 'timer' || r.kind === 'interval' || !done.has(k)) (r.kind === 'registration' ? this.registration(r) : this.resource(r));
            done.add(k);
        }
        R.stats(I.stats);
    }
    violation(r, why) {
        const l = r.node ? this.I.loc(r.node).split(':') : [this.file, 1];
        this.R.violation({ file: l[0], line: Number(l[1]) || 1, key: `${this.name} ${r.kind} ${l[0]} ${why.key}`, message: `${this.name}: the ${this.describe(r)} taken here ${why.text}` });
    }
    mine(r, a, node) {
        if (!a || a.kind !== r.kind || a.what !== r.what) return false;
        return !a.take || r.kind === 'entry' || r.kind === 'contribution' || node === r.node;
    }
    lookups(evs) {
        return new Set(evs.filter((e) => e.t === 'call' && e.v && /^querySelector|^getElement|^closest$/.test(e.name || '')).map((e) => keyOf(e.v)));
    }
    resource(r) {
        const { I, R } = this;
        const relevant = (e) => e.t === 'call' ? ['addEventListener', 'removeEventListener', 'observe', 'disconnect', 'querySelector', 'getElementById', 'closest'].includes(e.name) : e.t === 'timer' || e.t === 'clear' || (e.t === 'mutate' && this.shared(e.target) !== null) || (e.t === 'write' && (this.provided(e.ref) !== null || (e.ref && I.root.get(e.ref.id)))) || ((e.t === 'set' || e.t === 'delete') && this.provided(e.target) !== null);
        this.keep = relevant;
        this.keepFact = null;
        const outs = this.unmount();
        const acts = (s) => s.events().map((e) => ({ e, a: this.act(e, s) })).filter((x) => x.a && this.mine(r, x.a, x.e.node));
        // identities released on each unmount path
        const rel = outs.map((o) => ({ s: o.s, asked: this.lookups(o.s.events()), rs: acts(o.s).filter((x) => !x.a.take) }));
        R.count('unmount_paths', rel.length);
        const any = rel.find((x) => x.rs.length);
        if (!any) {
            this.keep = () => false;
            return this.violation(r, { key: 'never', text: 'is not given back when the component is unmounted' });
        }
        // the release may be any of those: one that always works is enough
        const sigs = new Map();
        for (const x of rel) for (const y of x.rs) sigs.set(y.a.id.map(keyOf).join(), y.a.id);
        if (sigs.size > 1) sigs.delete('');
        let first = null;
        for (const [sig, ids] of sigs) {
            const bad = this.attempt(r, rel.map((x) => ({ ...x, rs: x.rs.filter((y) => !y.a.id.length || y.a.id.map(keyOf).join() === sig) })), ids, relevant);
            if (!bad) {
                first = null;
                break;
            }
            if (!first || first.key === 'other') first = bad;
        }
        R.count('releases', rel.reduce((n, x) => n + x.rs.length, 0));
        if (first) this.violation(r, first);
    }
    attempt(r, rel, sig, relevant) {
        const { I, R } = this;
        // cells the release depends on
        const holders = new Map();
        for (const x of rel) for (const y of x.rs) for (const v of y.a.id) if (this.holder(v)) holders.set(this.holder(v), v);
        const cells = new Set(holders.keys());
        for (const x of rel)
            if (!x.rs.length)
                for (const key of x.s.facts.keys()) {
                    const h = this.holder(I.preds.get(key));
                    if (h) cells.add(h);
                }
        this.keep = (e) => relevant(e) || cells.has(this.holderOf(e));
        const lost = [];
        const paths = [];
        for (const t of this.tasks()) for (const o of t.run()) paths.push({ t, s: o.s, evs: o.s.events(), facts: o.s.facts });
        this.keep = () => false;
        R.count('paths', paths.length);
        const group = new Set([r.node]);
        if (r.kind === 'timer') {
            // timers kept in the same cell are told apart by which one it holds
            for (const p of paths) for (const e of p.evs) if (e.t === 'timer' && p.evs.some((x) => holders.has(this.holderOf(x)) && keyOf(x.v) === keyOf(e.v))) group.add(e.node);
        }
        const takes = (e, a) => (r.kind === 'timer' ? e.t === 'timer' && group.has(e.node) : a && a.take && this.mine(r, a, e.node));
        const truth = (v, facts) => {
            if (!v) return undefined;
            if (v.k === 'not') return ((t) => (t === undefined ? t : !t))(truth(v.v, facts));
            if (v.k === 'lit') return !!v.v;
            if (v.k !== 'sym') return true;
            return v.nonnull || v.timer || v.wraps ? true : I.symTruth({ facts }, v);
        };
        // what a path does with the thing: held at the end or not, and the cells it leaves changed
        const walk = (p, startHeld) => {
            let held = startHeld ? { ids: null } : null;
            let again = false;
            if (startHeld && r.kind === 'timer' && group.has(p.t.timer)) held = null;
            if (startHeld && this.already(r, p.s)) held = null;
            const now = new Map();
            for (const e of p.evs) {
                const a = this.act(e, p.s);
                if (takes(e, a)) {
                    if (held && !held.ids) again = true;
                    held = { ids: e.t === 'timer' ? [e.v] : a.id, e };
                } else if (a && !a.take && this.mine(r, a, e.node)) {
                    const ok =
                        held &&
                        a.id.every((v, i) => {
                            const h = this.holder(v);
                            if (held.ids) return keyOf(held.ids[i]) === keyOf(v) || (h && now.has(h) && keyOf(now.get(h)) === keyOf(held.ids[i]));
                            return !sig[i] || keyOf(v) === keyOf(sig[i]);
                        });
                    if (ok) held = null;
                } else {
                    const h = this.holderOf(e);
                    if (h && cells.has(h)) now.set(h, e.v);
                }
            }
            return { held, now, again };
        };
        const fresh = paths.map((p) => walk(p, false));
        const later = paths.map((p) => (/^on(Before)?Mount(ed)?$/.test(p.t.label) ? null : walk(p, true)));
        // 1. the release names what was taken: by something stable, or through a cell that holds it then
        const named = (held, now) => {
            for (const x of rel)
                for (const y of x.rs)
                    for (let i = 0; i < y.a.id.length; i++) {
                        const v = y.a.id[i];
                        const w = held.ids[i];
                        const h = this.holder(v);
                        const same = w && (h ? keyOf(now.has(h) ? now.get(h) : v) === keyOf(w) : keyOf(v) === keyOf(w) && this.stable(v, x.asked));
                        if (!same) return { key: 'other', text: `is not what the release at ${y.e.node ? I.loc(y.e.node) : 'unmount'} names: ${this.part(r, i)} may be another one by then` };
                    }
            return null;
        };
        fresh.forEach((w) => {
            const bad = w.held && named(w.held, w.now);
            if (bad) lost.push(bad);
        });
        // 2. what is known while it is held: the largest set of conditions that taking it establishes and every function keeps
        const conds = new Map();
        for (const [h, v] of holders) conds.set(`keeps ${h}`, { keeps: true, h }), conds.set(`${h} true`, { h, key: keyOf(v), want: true, sym: v });
        for (const x of rel)
            if (!x.rs.length)
                for (const [key, b] of x.s.facts) {
                    const p = I.preds.get(key);
                    if (typeof b !== 'boolean' || !p) continue;
                    const h = this.holder(p);
                    if (h) conds.set(`${h} ${!b}`, { h, key: keyOf(p), want: !b, sym: p });
                }
        for (const t of this.tasks()) if (t.w && this.twoValued(t.w.w)) for (const want of [true, false]) conds.set(`last#${t.w.w.id} ${want}`, { w: t.w.w.id, want });
        const last = (p, c) => (p.t.w && p.t.w.w.id === c.w ? p.facts.get(`new#${c.w}`) : undefined);
        const possible = (p) => {
            if (r.kind === 'entry' && this.absent(p.s)) return false;
            for (const c of conds.values()) {
                if (c.w !== undefined) {
                    if (p.t.w && p.t.w.w.id === c.w && last(p, c) === c.want) return false;
                } else if (!c.keeps && truth(c.sym, p.facts) === !c.want) return false;
            }
            return true;
        };
        const why = new Map();
        const established = (c, i) => {
            const { held, now } = fresh[i];
            if (!held) return true;
            if (c.keeps) return true;
            if (c.w !== undefined) return last(paths[i], c) === c.want;
            // a place in the surrounding state has a name
            if (r.kind === 'contribution' && now.has(c.h) && held.ids.some((v) => keyOf(v) === keyOf(now.get(c.h)))) return c.want;
            return truth(now.has(c.h) ? now.get(c.h) : c.sym, paths[i].facts) === c.want;
        };
        const kept = (c, i) => {
            const x = later[i];
            if (!x || !x.held) return true;
            const p = paths[i];
            if (!possible(p)) return true;
            if (c.keeps) return (x.held.ids && !x.again) || !x.now.has(c.h) || this.unchanged(p, c.h, x.now.get(c.h));
            if (c.w !== undefined) return !p.t.w || p.t.w.w.id !== c.w || last(p, c) === c.want;
            return x.held.ids ? established(c, i) : !x.now.has(c.h) || this.unchanged(p, c.h, x.now.get(c.h)) || truth(x.now.get(c.h), p.facts) === c.want;
        };
        for (let changed = true; changed; ) {
            changed = false;
            for (const [k, c] of [...conds]) {
                const i = paths.findIndex((p, j) => !established(c, j) || !kept(c, j));
                if (i < 0) continue;
                conds.delete(k);
                why.set(k, { c, p: paths[i] });
                changed = true;
            }
        }
        for (const h of holders.keys())
            if (!lost.length && !conds.has(`keeps ${h}`)) lost.push({ key: 'overwritten', text: `can be lost before it is given back: ${this.cellName(h)} is overwritten in ${this.place(why.get(`keeps ${h}`).p)}` });
        // 3. each way through unmounting that does not release it is impossible while it is held
        if (!lost.length)
            for (const x of rel) {
                if (x.rs.length || this.absent(x.s) || this.already(r, x.s)) continue;
                if ([...conds.values()].some((c) => c.sym && truth(c.sym, x.s.facts) === !c.want)) continue;
                const w = [...why.values()].find((y) => y.c.h && !y.c.keeps && truth(y.c.sym, x.s.facts) === !y.c.want);
                lost.push({ key: 'skipped', text: `may not be given back when the component is unmounted${w ? `: ${this.cellName(w.c.h)} need not be ${w.c.want ? 'set' : 'unset'} after ${this.place(w.p)}` : ''}` });
            }
        return lost[0] || null;
    }
    // a watched source that is either true or false
    twoValued(w) {
        const s = w.source;
        if (!s) return false;
        if (s.k === 'ref') {
            const c = this.I.getCell(this.sim.b.setupState, s.id) || this.I.getCell(this.sim.state(), s.id);
            const v = c && (c.init || c.value);
            return !!v && ((v.k === 'lit' && typeof v.v === 'boolean') || !!v.isBool);
        }
        const outs = ['computed', 'propref'].includes(s.k) ? this.I.readRef(this.sim.state(), s) : [];
        return outs.length > 0 && outs.every((o) => o.v && (o.v.isBool || o.v.k === 'not' || (o.v.k === 'lit' && typeof o.v.v === 'boolean')));
    }
    part(r, i) {
        return r.kind === 'listener' ? ['the element', 'the handler'][i] : r.kind === 'contribution' ? 'the place' : 'it';
    }
    cellName(h) {
        return h.startsWith('var#') ? `'${h.split('.')[1]}'` : `state ${h}`;
    }
    place(p) {
        return `${p.t.label}${p.t.node ? ` (${this.I.loc(p.t.node)})` : ''}`;
    }
    // the path found no such entry in the list
    absent(st) {
        const keys = [...st.facts.keys()];
        if (keys.some((k) => /loop:.*\.length/.test(k) && this.I.preds.get(k) && this.I.preds.get(k).lt) && keys.some((k) => /^\(loop:[\w$]+@\d+(<0|===-1)\)$/.test(k) && st.facts.get(k) === true)) return true;
        for (const [key, b] of st.facts) {
            const p = this.I.preds.get(key);
            const of = p && ((p.eq && p.eq.lit === -1 && b === true && p.eq.of) || (p.lt && b === (p.lt.b.k === 'lit') && [p.lt.a, p.lt.b].find((x) => x.k === 'sym')));
            if (p && b === false && p.found && p.tested && this.holder(this.searched({ facts: new Map() }, p))) return true;
            if (p && b === false && p.quant && p.quant.name === 'some' && this.holder(this.searched({ facts: new Map() }, { tested: p.quant.vals }))) return true;
            if (of && of.tested && this.holder(this.searched({ facts: new Map() }, of))) return true;
        }
        return false;
    }
    // a cell given the value it is known to have
    unchanged(p, h, v) {
        for (const [key, b] of p.facts) {
            const q = this.I.preds.get(key);
            if (b === true && q && q.cmp && [q.cmp.a, q.cmp.b].some((x, i, a) => this.holder(x) === h && keyOf(a[1 - i]) === keyOf(v))) return true;
        }
        return false;
    }
    // the path found the surrounding state as it was at the start
    already(r, st) {
        if (r.kind !== 'contribution') return false;
        const cell = Number(r.what.slice(1));
        for (const [key, b] of st.facts) {
            const p = this.I.preds.get(key);
            if (b !== true || !p || !p.equalOf) continue;
            const init = this.store.get(cell) || [...this.store].find(([id]) => String(id) === r.what.slice(1))?.[1];
            const first = init && init.v.k === 'obj' ? this.I.getCell(init.st, init.v.id) : null;
            if (!first) continue;
            const parts = [first, ...[...first.props.values()].map((x) => (x.k === 'obj' ? this.I.getCell(init.st, x.id) : null)).filter(Boolean)];
            for (const props of p.shapes) if (props && parts.some((x) => this.same(x, { props }, (n, y) => !!this.holder(y)))) return true;
        }
        return false;
    }
    // entries kept under a key that follows the component's own identifier
    registration(r) {
        const { I, R } = this;
        this.keep = (e) => ((e.t === 'set' || e.t === 'delete') && this.provided(e.target) !== null) || (e.t === 'write' && this.provided(e.ref) !== null);
        const keyed = (outs) => outs.map((o) => ({ s: o.s, acts: o.s.events().map((e) => ({ e, a: this.act(e, o.s) })).filter((x) => x.a && x.a.kind === 'registration' && x.a.what === r.what) }));
        const un = keyed(this.unmount());
        R.count('unmount_paths', un.length);
        const props = (p) => (p && p.propOf ? p.prop : null);
        const facts = (s) => [...s.facts].map(([k, b]) => [I.preds.get(k), b]).filter(([p, b]) => p && props(p) && typeof b === 'boolean').map(([p, b]) => `${props(p)}=${b}`);
        const meets = (a, b) => !a.some((x) => b.some((y) => x.split('=')[0] === y.split('=')[0] && x !== y));
        const sources = new Set();
        for (const t of this.tasks())
            for (const p of keyed(t.run())) {
                R.count('paths');
                const taken = p.acts.filter((x) => x.a.take);
                for (const x of taken) {
                    const id = x.a.id[0];
                    if (/^new#/.test(keyOf(id))) continue;
                    if (props(id)) sources.add(props(id));
                    const fa = facts(p.s);
                    for (const u of un) {
                        if (!meets(fa, facts(u.s))) continue;
                        if (!u.acts.some((y) => !y.a.take && (!y.a.id.length || keyOf(y.a.id[0]) === keyOf(id)))) {
                            this.keep = () => false;
                            return this.violation({ ...r, node: x.e.node }, { key: 'unmount', text: `is not removed when the component is unmounted (taken in ${t.label})` });
                        }
                    }
                }
            }
        for (const s of sources) {
            const moves = this.tasks().some((t) => t.w && [...t.w.deps].some((d) => d.endsWith(`.${s}`)) && ((outs) => outs.length && outs.every((p) => p.acts.some((x) => !x.a.take && (!x.a.id.length || keyOf(x.a.id[0]) === `old#${t.w.w.id}`))))(keyed(t.run())));
            if (!moves) this.violation(r, { key: 'moved', text: `stays under the old identifier when '${s}' changes` });
        }
        this.keep = () => false;
        R.count('releases', un.reduce((n, x) => n + x.acts.length, 0));
    }
}

// A lock on the scrolling of an element leaves its styles as they were, however often it is taken and given back
// and however frames fall in between. The styles of the element are opaque identities.
function scrollLock(R) {
    let el = null;
    const u = new Unit({
        keepEvent: () => false,
        onOpaque: ({ name }, st) => (name === 'querySelector' && el ? [{ s: st, v: el }] : null),
    });
    const { I } = u;
    const s0 = u.state();
    const names = ['overflow', 'overflowX', 'overflowY', 'paddingRight', 'paddingBottom', 'paddingLeft', 'paddingTop', 'position', 'top', 'width', 'height'];
    const style = I.mkObj(s0, names.map((n) => [n, Id(`style.${n}`)]), { open: true });
    el = I.mkObj(s0, [['style', style]], { open: true });
    const fn = u.val('composables', 'useScrollLock');
    const made = u.call(fn, [Id('container')], s0);
    const frame = (outs) => {
        for (let i = 0; i < 6 && outs.some((o) => o.s.deferred.length); i++)
            outs = I.bind(outs, (s) => {
                if (!s.deferred.length) return [{ s }];
                const [d, ...rest] = s.deferred;
                s.deferred = rest;
                return I.invoke(d.fn, U, d.args || [], s, d.node).map((o) => ({ s: o.s }));
            });
        return I.compact(outs);
    };
    const reported = new Set();
    const visit = (o, outs, held, done, depth) => {
        for (const step of ['lock', 'unlock', 'frame']) {
            if (step === 'frame' && done[done.length - 1] === 'frame') continue;
            let next = outs.map((x) => ({ s: x.s.clone() }));
            next = step === 'frame' ? frame(next) : I.compact(I.bind(next, (s) => u.send(s, o, step, []).map((x) => ({ s: x.s }))));
            const h = step === 'frame' ? held : step === 'lock';
            const trace = [...done, step];
            if (step === 'unlock') {
                R.count('lock_histories');
                for (const x of frame(next.map((y) => ({ s: y.s.clone() })))) {
                    const c = I.getCell(x.s, style.id);
                    for (const n of c.props.keys()) {
                        const v = c.props.get(n);
                        if (names.includes(n) && v.ident === `style.${n}`) continue;
                        const key = `scroll lock ${n}`;
                        if (reported.has(key)) continue;
                        reported.add(key);
                        R.violation({ file: L.rel(fn.mod.path || fn.mod.file || ''), line: u.line(fn), key, message: `the ${n} style of a container is not given back after ${trace.join(', ')} and the next frame: it is ${keyOf(v)}` });
                    }
                }
            }
            if (depth > 1) visit(o, next, h, trace, depth - 1);
        }
    };
    for (const m of made) {
        if (m.c) continue;
        visit(m.v, [{ s: m.s }], false, [], 5);
    }
}

function run() {
    const R = report();
    const only = process.env.C03_ONLY;
    for (const f of L.sourceFiles(L.UI).filter((n) => n.endsWith('.vue'))) if (!only || f.includes(`/${only}.vue`)) new Life(R, f).check();
    if (!only || only === 'lock') scrollLock(R);
    if (!only) {
        R.require('lock_histories', 20);
        R.require('components', 40);
        R.require('acquisitions', 10);
        R.require('releases', 8);
    }
    return R.result({
        rule: 'For every place that takes something outside the component, every way through the unmount hooks gives back the same thing: it is named by something that cannot change or through a cell that is never overwritten while it is held, and any condition that skips the release is impossible while it is held.',
        explanation: 'Typestate analysis on top of abstract interpretation: every function that runs on its own (hooks, watchers, listeners, observers, timers, exposed functions) is followed from an arbitrary moment; for each acquisition the relation between holding it and the cells the release depends on is checked to be established by the acquisition and preserved by every function.',
        assumptions: ['Work postponed to the next tick or the next frame runs before the component can be unmounted.', 'Listeners on elements of the component itself go away with the elements.'],
    });
}
module.exports = { run };
