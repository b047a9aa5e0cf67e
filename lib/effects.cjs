'use strict';
// Effects of a component: user entries, callbacks registered outside the component, watcher closure.
const L = require('./load.cjs');
const { ts } = L;
const A = require('./absint.cjs');
const { Sym, U, TRUE, FALSE, keyOf, Lit } = A;
const { World, compDef } = require('./component.cjs');

const isFn = (v) => v && (v.k === 'fn' || v.k === 'native' || (v.k === 'sym' && v.wraps));

// functions reachable inside a value (object members, list elements, refs)
function fnsIn(I, st, v, d = 4, name = '', seen = new Set(), out = []) {
    if (!v || d < 0) return out;
    if (v.k === 'fn' || (v.k === 'sym' && v.wraps)) {
        out.push({ fn: v, name, st });
        return out;
    }
    if (v.id !== undefined) {
        const k = v.k + v.id;
        if (seen.has(k)) return out;
        seen.add(k);
    }
    if (v.k === 'obj') {
        const c = I.getCell(st, v.id);
        if (c && c.props) {
            for (const [n, x] of c.props) fnsIn(I, st, x, d - 1, n, seen, out);
            for (const sp of c.spreads || []) fnsIn(I, st, sp.v, d - 1, name, seen, out);
        }
    } else if (v.k === 'arr') {
        for (const e of I.elements(st, v) || []) fnsIn(I, st, e, d - 1, name, seen, out);
    } else if (v.k === 'ref') {
        const c = I.getCell(st, v.id);
        if (c) fnsIn(I, st, c.init && c.init.k !== 'sym' ? c.init : c.value, d - 1, name, seen, out);
        if (c && c.value && c.value.k === 'sym' && c.value.init) fnsIn(I, st, c.value.init, d - 1, name, seen, out);
    } else if (v.k === 'computed') {
        const probe = st.clone();
        for (const o of I.readRef(probe, v, null)) if (!o.c) fnsIn(I, o.s, o.v, d - 1, name, seen, out);
    } else if (v.k === 'promise' && v.v) fnsIn(I, st, v.v, d - 1, name, seen, out);
    else if (v.k === 'sym' && v.phi) for (const x of v.phi) fnsIn(I, st, x, d - 1, name, seen, out);
    return out;
}

// true when a heap object is reachable from module-level state rather than local to the analysed call
function isShared(I, v) {
    return (v.k === 'obj' || v.k === 'arr' || v.k === 'map' || v.k === 'ref') && !!I.root.get(v.id);
}

class Sim {
    constructor(cfg = {}) {
        this.sink = null;
        this.scn = null; // {props: (inst,name) => value|null, pins: Map}
        const self = this;
        this.world = new World({
            keepEvent: () => false,
            maxSteps: 4e7,
            ...cfg,
            onEvent: (e, st) => {
                if (self.sink) self.sink(e, st);
            },
            propOverride: (inst, name, st) => (self.scn && self.scn.props ? self.scn.props(inst, name, st) : null),
        });
        this.I = this.world.I;
    }
    load(file, opts) {
        this.b = this.world.build(file, opts);
        this.top = this.b.inst;
        return this;
    }
    state() {
        return this.b.frozen.clone();
    }
    during(sink, f) {
        const prev = this.sink;
        this.sink = sink;
        try {
            return f();
        } finally {
            this.sink = prev;
        }
    }
    under(scn, f) {
        const prev = this.scn;
        this.scn = scn;
        this.I.pin(scn && scn.pins);
        try {
            return f();
        } finally {
            this.scn = prev;
            this.I.pin(prev && prev.pins);
        }
    }
    // runs a user entry to completion, including timers it started
    runEntry(e, st) {
        return this.finish(this.world.runEntry(e, st || this.state()));
    }
    runFn(fn, args, st, node) {
        return this.finish(this.I.invoke(fn, U, args, st || this.state(), node || null));
    }
    finish(outs) {
        return this.I.compact(this.I.bind(outs.map((o) => (o.c ? { s: o.s, v: U } : o)), (s) => (s.deferred.length ? this.I.drain(s).map((o) => ({ s: o.s, v: U })) : [{ s, v: U }])));
    }
    runCallback(c) {
        return this.runFn(c.fn, [Sym(`$event:${c.event}`, { nonnull: true })], c.st.clone(), c.node);
    }
    watchers() {
        if (!this._ws) {
            this._ws = [];
            for (const inst of this.b.all)
                for (const w of inst.watchers) if (isFn(w.cb)) this._ws.push({ w, inst, deps: w.source ? this.world.deps(w, this.state()) : this.effectDeps(w) });
        }
        return this._ws;
    }
    effectDeps(w) {
        const set = new Set();
        const I = this.I;
        const prev = I.cfg.onRead;
        I.cfg.onRead = (o) => {
            if (o.k === 'ref') set.add('ref#' + o.id);
            if (o.k === 'propref') set.add('prop:' + o.props.inst.uid + '.' + o.name);
        };
        try {
            I.invoke(w.cb, U, [], this.state(), w.node);
        } finally {
            I.cfg.onRead = prev;
        }
        return set;
    }
    runWatcher(x, st) {
        return this.finish(this.I.invoke(x.w.cb, U, [Sym(`new#${x.w.id}`), Sym(`old#${x.w.id}`)], st || this.state(), x.w.node));
    }
    // functions an instance hands to its template and its users
    methods(inst = this.top) {
        const out = [];
        const seen = new Set();
        for (const v of [inst.ret, inst.exposed]) {
            if (!v || v.k === 'fn') continue;
            for (const f of fnsIn(this.I, this.state(), v, 2)) {
                const k = f.name + keyOf(f.fn.wraps || f.fn);
                if (!seen.has(k)) out.push({ ...f, st: this.I.freeze(f.st) });
                seen.add(k);
            }
        }
        return out;
    }
    runMethod(m) {
        const n = (m.fn.wraps || m.fn).node;
        return this.runFn(m.fn, n && n.parameters ? n.parameters.map((p, i) => Sym(`arg:${m.name}.${i}`)) : [], m.st.clone(), n);
    }
    hooks(...names) {
        const out = [];
        for (const inst of this.b.all) for (const h of inst.hooks) if (names.includes(h.name)) out.push({ ...h, inst });
        return out;
    }
    // cell an effect event touches: 'ref#id' or null
    cellOf(e) {
        if (e.t === 'write') return e.ref && e.ref.k === 'ref' ? 'ref#' + e.cell : null;
        if (e.t === 'mutate' || e.t === 'set' || e.t === 'delete' || e.t === 'mapset' || e.t === 'mapdelete' || e.t === 'mapclear') {
            const r = this.I.rootOf(e.target);
            if (r && r.k === 'ref') return 'ref#' + r.id;
            if (r && r.k === 'sym' && r.computedId) return 'computed#' + r.computedId;
        }
        return null;
    }
    isNoop(e, st) {
        return e.t === 'write' && e.old && keyOf(this.I.norm(st, e.old)) === keyOf(this.I.norm(st, e.v));
    }
    // callbacks handed to the platform or to shared stores
    discover() {
        if (this._cbs) return this._cbs;
        const found = new Map();
        // a callback runs later, in the scope it was created in
        const add = (kind, fn, event, e, st) => {
            const k = kind + '|' + event + '|' + keyOf(fn.wraps || fn);
            if (!found.has(k)) found.set(k, { kind, fn, event, node: e.node, st: this.I.freeze(st), path: e.path || this.I.path() });
        };
        const sink = (e, st) => {
            if (e.t === 'call' && e.name === 'addEventListener' && isFn(e.args[1])) add('listener', e.args[1], e.args[0] && e.args[0].k === 'lit' ? e.args[0].v : '?', e, st);
            else if (e.t === 'new') for (const a of e.args || []) if (isFn(a)) add('observer', a, e.key, e, st);
            if (e.t === 'mutate' || e.t === 'mapset' || e.t === 'set' || e.t === 'call')
                for (const a of e.t === 'set' ? [e.v] : e.args || []) if (a && a.k !== 'fn') for (const f of fnsIn(this.I, st, a)) if (typeof f.name === 'string') add(/^key-/.test(f.name) ? 'key' : 'shared', f.fn, f.name, e, f.st || st);
        };
        this.during(sink, () => {
            for (const h of this.hooks('onBeforeMount', 'onMounted', 'onUpdated', 'onActivated')) this.runFn(h.fn, [], null, h.node);
            for (const x of this.watchers()) this.runWatcher(x);
            for (const e of this.b.entries) this.runEntry(e);
            const done = new Set();
            for (let round = 0; round < 3; round++)
                for (const [k, c] of [...found]) {
                    if (done.has(k)) continue;
                    done.add(k);
                    this.runCallback(c);
                }
        });
        this._cbs = [...found.values()];
        return this._cbs;
    }
    // per watcher: emits and touched cells
    watcherEffects() {
        if (this._we) return this._we;
        this._we = this.watchers().map((x) => {
            const emits = [];
            const cells = new Set();
            this.during(
                (e, st) => {
                    if (e.t === 'emit') emits.push({ inst: e.inst, name: e.name, args: e.args, node: e.node });
                    else {
                        const c = this.cellOf(e);
                        if (c && !this.isNoop(e, st)) cells.add(c);
                    }
                },
                () => this.runWatcher(x),
            );
            return { ...x, emits, cells };
        });
        return this._we;
    }
    // cells whose change makes the top instance raise one of the given events
    cellsRaising(isEvent) {
        const ws = this.watcherEffects();
        const V = new Map(); // cell -> watcher chain
        for (let changed = true; changed; ) {
            changed = false;
            for (const w of ws) {
                const direct = w.emits.some((m) => m.inst === this.top && isEvent(m.name));
                let via = direct ? [this.I.loc(w.w.node)] : null;
                if (!via) for (const c of w.cells) if (V.has(c)) via = [this.I.loc(w.w.node), ...V.get(c)];
                if (!via) continue;
                for (const d of w.deps)
                    if (!V.has(d)) {
                        V.set(d, via);
                        changed = true;
                    }
            }
        }
        return V;
    }
}

// store cells a form sets when one of its flags is on, found by comparing its set-up under both values
function formPins(sim, formInst, st, flag) {
    const I = sim.I;
    const vals = (on, later) => {
        const outMaps = [];
        const scn = { props: (inst, name) => (inst === formInst && name === flag ? Lit(on) : null) };
        sim.under(scn, () => {
            let outs = [{ s: st.clone(), v: U }];
            for (const w of formInst.watchers) {
                if (!isFn(w.cb)) continue;
                if (w.source) {
                    const d = sim.world.deps(w, st.clone());
                    if (!(later ? d.has(`prop:${formInst.uid}.${flag}`) : w.immediate)) continue;
                    outs = I.bind(outs, (s) => I.bind(sim.world.sourceVals(w, s).map((o) => ({ s: o.s, v: o.arr ? I.mkArr(o.s, o.v) : o.v })), (s2, v) => I.invoke(w.cb, U, [v, U], s2, w.node)));
                } else outs = I.bind(outs, (s) => I.invoke(w.cb, U, [], s, w.node));
            }
            for (const h of formInst.hooks) if (!later && ['onBeforeMount', 'onMounted'].includes(h.name)) outs = I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node));
            for (const o of outs) {
                if (o.c) continue;
                const m = new Map();
                o.s.live.each((id, c) => {
                    if (c.t === 'ref' && c.value.k === 'lit') m.set(id, c.value.v);
                    if (c.t === 'obj') for (const [n, v] of c.props) if (v.k === 'lit') m.set(`${id}.${n}`, v.v);
                });
                outMaps.push(m);
            }
        });
        return outMaps;
    };
    const res = [];
    for (const later of [false, true]) {
        const on = vals(true, later), off = vals(false, later);
        const pins = new Map();
        if (on.length && off.length)
            for (const [k, v] of on[0]) {
                if (!on.every((m) => m.get(k) === v)) continue;
                if (off.every((m) => m.has(k) && m.get(k) !== v) || (later && v === true && off.every((m) => m.get(k) !== true))) pins.set(k, Lit(v));
            }
        res.push({ later, pins });
    }
    return res;
}

module.exports = { Sim, fnsIn, isFn, isShared, formPins };
