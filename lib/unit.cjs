'use strict';
// Analysis of exported functions and classes outside components, over opaque identities.
const path = require('path');
const L = require('./load.cjs');
const A = require('./absint.cjs');
const { Interp, St, Sym, U, keyOf } = A;

// an opaque identity: different from every other one, otherwise unknown
const Id = (name) => Sym(name, { nonnull: true, ident: name });
// two opaque identities are equal only when they are the same
function identities(v) {
    if (v.cmp && (v.cmp.a.ident || v.cmp.b.ident)) return v.cmp.a.ident === v.cmp.b.ident;
    if (v.eq && v.eq.of && v.eq.of.ident) return false;
    return undefined;
}

// sources of randomness hand out values nobody else has
const RANDOM = /^(import:nanoid#|global:crypto\.(randomUUID|getRandomValues)$|global:Math\.random$)/;
let drawn = 0;
function random({ fk }) {
    if (!RANDOM.test(fk) || /#customAlphabet$/.test(fk)) return null;
    const name = `random#${++drawn}`;
    return Sym(name, { nonnull: true, ident: name, unique: true });
}

class Unit {
    constructor(cfg = {}, interp) {
        this.sink = null;
        if (interp) {
            this.I = interp;
            return;
        }
        const decide = cfg.decide;
        this.I = new Interp({
            keepEvent: () => true,
            unroll: 8,
            maxSteps: 4e7,
            ...cfg,
            decide: (v, st) => {
                const r = identities(v);
                if (r !== undefined) return r;
                return decide ? decide(v, st) : undefined;
            },
            onEvent: (e, st) => {
                if (this.sink) this.sink(e, st);
                if (cfg.onEvent) cfg.onEvent(e, st);
            },
        });
    }
    // a value exported by a module of the library (index file of a directory or a file)
    val(dir, name) {
        const p = L.resolveImport(dir, path.join(L.UI, 'index.ts')) || L.resolveImport('./' + dir, path.join(L.UI, 'index.ts'));
        if (!p) throw new Error(`module ${dir} not found`);
        const v = this.I.exportVal(L.loadModule(p), name);
        if (v === undefined) throw new Error(`${name} is not exported by ${dir}`);
        return v;
    }
    line(fn) {
        return fn.node && fn.mod ? L.lineOf(fn.mod, fn.node.getStart(fn.mod.sf)) : 0;
    }
    state() {
        return new St();
    }
    call(fn, args, st, thisv = U) {
        return this.I.invoke(fn, thisv, args, st, null);
    }
    // a method of an object
    method(st, o, name) {
        const r = this.I.getMember(st, o, name, null, {});
        if (r.length !== 1 || r[0].c || (r[0].v.k !== 'fn' && r[0].v.k !== 'native')) throw new Error(`no method ${name}`);
        return r[0].v;
    }
    send(st, o, name, args) {
        return this.I.invoke(this.method(st, o, name), o, args, st, null);
    }
    make(cls, args, st) {
        const o = this.I.instantiateShell(cls, st);
        return this.I.bind(this.I.construct(cls, o, args, st, null), (s) => [{ s, v: o }]);
    }
    // contents of a module-level object as its constructor left it
    asBuilt(st, v, seen = new Set()) {
        if (!v || v.id === undefined || seen.has(v.id)) return;
        seen.add(v.id);
        const c = this.I.root.get(v.id);
        if (!c) return;
        st.live.set(v.id, c);
        if (c.t === 'ref') this.asBuilt(st, c.value, seen);
        if (c.t === 'obj') for (const x of c.props.values()) this.asBuilt(st, x, seen);
        if (c.t === 'arr') for (const x of c.elems || []) this.asBuilt(st, x, seen);
        if (c.t === 'map') for (const x of c.entries.values()) this.asBuilt(st, x, seen);
    }
    // module-level variables as they are after loading the library's own modules
    asLoaded(st, dir = 'framework') {
        for (const p of L.sourceFiles(path.join(L.UI, dir))) {
            const mod = L.loadModule(p);
            const id = this.I.modScope(mod);
            const c = this.I.root.get(id);
            const vars = new Map(c.vars);
            for (const [n, d] of this.I.info(mod).decls)
                if (vars.has(n) && d.node.initializer) vars.set(n, this.I.rootEval((s) => this.I.ev(d.node.initializer, s, { scope: null, mod })));
            if (vars.size) st.live.set(id, { ...c, vars });
        }
    }
    obj(st, entries) {
        return this.I.mkObj(st, Object.entries(entries));
    }
    // put a property on an object of this state
    put(st, o, name, v) {
        const c = this.I.getCell(st, o.id);
        const props = new Map(c.props);
        props.set(name, v);
        st.live.set(o.id, { ...c, props });
    }
    during(sink, f) {
        const prev = this.sink;
        this.sink = sink;
        try {
            return f();
        } finally {
            this.sink = prev;
        }
    }
    // list held by the reference cells of an object: [{ref, elems}]
    lists(st, o) {
        const out = [];
        const seen = new Set();
        const c = this.I.getCell(st, o.id);
        for (const v of c ? c.props.values() : []) {
            if (v.k !== 'ref' || seen.has(v.id)) continue;
            seen.add(v.id);
            const x = this.I.getCell(st, v.id).value;
            if (x.k === 'arr') out.push({ ref: v, elems: this.I.elements(st, x) });
        }
        return out;
    }
    // identities mentioned in a value
    idents(st, v, d = 5, out = new Set(), seen = new Set()) {
        if (!v || d < 0) return out;
        if (v.ident) out.add(v.ident);
        if (v.id !== undefined) {
            if (seen.has(v.id)) return out;
            seen.add(v.id);
            const c = this.I.getCell(st, v.id);
            if (c && c.t === 'ref') this.idents(st, c.value, d - 1, out, seen);
            if (c && c.t === 'obj') for (const x of c.props.values()) this.idents(st, x, d - 1, out, seen);
            if (c && c.t === 'arr') for (const x of c.elems || []) this.idents(st, x, d - 1, out, seen);
            if (c && c.t === 'map') for (const x of c.entries.values()) this.idents(st, x, d - 1, out, seen);
        }
        return out;
    }
}
module.exports = { Unit, Id, identities, random };
