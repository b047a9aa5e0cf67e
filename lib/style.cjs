'use strict';
// What a component renders with: the values its style bindings, class bindings and children receive.
const path = require('path');
const L = require('./load.cjs');
const A = require('./absint.cjs');
const { Sym, Lit, U, keyOf } = A;
const { Sim } = require('./effects.cjs');
const { Unit } = require('./unit.cjs');

// a value of a style: a text nobody else uses
const Text = (name) => Sym(name, { nonnull: true, ident: name, unique: true, prim: true });

// a dedicated prop nobody has to give
const optional = (d) => !!d && !d.hasDefault && !d.isBool && !d.required && d.types && d.types.length > 0 && d.types.every((t) => ['String', 'Number', 'Object'].includes(t));

class Styled {
    // tree: nested plain object of marker values given as the style set
    constructor(file, opts) {
        this.sim = new Sim({ keepEvent: () => false, unroll: 6, ...opts.cfg });
        this.I = this.sim.I;
        this.u = new Unit({}, this.I);
        this.file = file;
        this.opts = opts;
        this.made = new Map();
        this.scn = {
            props: (inst, name, st) => {
                if (inst.parent) return null;
                if (!opts.props || !(name in opts.props)) return opts.calm && optional(inst.def.props.get(name)) ? U : null;
                const v = opts.props[name];
                return typeof v === 'function' ? this.shared(st, name, () => v(this, st)) : v;
            },
        };
        this.sim.under(this.scn, () => this.sim.load(file));
        this.top = this.sim.top;
        this.name = this.top.def.name;
    }
    obj(s, o) {
        return this.I.mkObj(s, Object.entries(o).map(([k, v]) => [k, v && v.k ? v : v === undefined ? U : this.obj(s, v)]));
    }
    // the same object in every state
    shared(st, key, make) {
        if (!this.made.has(key)) {
            const before = new Set();
            st.live.each((id) => before.add(id));
            const v = make();
            const cells = [];
            st.live.each((id, c) => before.has(id) || cells.push([id, c]));
            this.made.set(key, { v, cells });
        }
        const m = this.made.get(key);
        if (m.v.id !== undefined && !this.I.getCell(st, m.v.id)) for (const [id, c] of m.cells) st.live.set(id, c);
        return m.v;
    }
    // right after set-up, with the application's options in place
    states(options = {}) {
        const store = this.u.call(this.u.val('stores', 'useOptionsStore'), [], this.u.state())[0].v;
        const s = this.sim.b.setupState.clone();
        this.u.asBuilt(s, store);
        let outs = [{ s, v: U }];
        for (const [m, o] of Object.entries(options)) outs = this.I.bind(outs, (s1) => this.u.send(s1, store, m, [this.obj(s1, o)]));
        return outs.map((o) => o.s);
    }
    // every place where a value reaches what is rendered
    sinks(names = ['style']) {
        const { sim } = this;
        const w = sim.world;
        const out = [];
        // parts of the component itself, not what other styled components render
        const own = (inst) => inst === this.top || (!inst.def.props.has('styleSet') && inst.parent && own(inst.parent));
        for (const e of sim.b.elements) {
            if (!own(e.inst)) continue;
            for (const n of names) {
                const a = w.attrInfo(e.el, n);
                if (a && a.exp) out.push({ inst: e.inst, el: e.el, name: n, native: true, ev: (s) => w.evExp(a.exp, s, w.tplEnv(s, e.inst, e.locals), e.inst) });
            }
            for (const p of e.el.props) if (p.type === 7 && p.name === 'bind' && !p.arg && p.exp) out.push({ inst: e.inst, el: e.el, name: 'v-bind', native: true, ev: (s) => w.evExp(p.exp, s, w.tplEnv(s, e.inst, e.locals), e.inst) });
        }
        for (const inst of sim.b.all) {
            if (!inst.parent || !own(inst.parent)) continue;
            for (const m of [inst.bindings, inst.attrs]) for (const [n, b] of m) if (!b.k) out.push({ inst: inst.parent, child: inst, el: inst.el, name: n, ev: (s) => b(s) });
            if (inst.spreadProps) out.push({ inst: inst.parent, child: inst, el: inst.el, name: 'v-bind', ev: (s) => w.evExp(inst.spreadProps, s, w.tplEnv(s, inst.parent, inst.slotLocals || []), inst.parent) });
        }
        return out;
    }
    // markers a value contains, with the keys leading to them
    found(s, v, keys = [], out = [], seen = new Set()) {
        v = this.I.norm(s, v);
        const into = (id, ks) => {
            if (seen.has(id)) return;
            seen.add(id);
            const c = this.I.getCell(s, id);
            if (!c) return;
            if (c.t === 'obj') {
                for (const [k, x] of c.props) this.found(s, x, [...ks, k], out, seen);
                for (const sp of c.spreads || []) this.found(s, sp.v, ks, out, seen);
            }
            if (c.t === 'arr') for (const x of c.elems || []) this.found(s, x, ks, out, seen);
            if (c.t === 'ref') this.found(s, c.value, ks, out, seen);
            seen.delete(id);
        };
        if (v.k === 'obj' || v.k === 'arr' || v.k === 'ref') into(v.id, keys);
        else if (v.k === 'computed') {
            if (!seen.has('c' + v.id)) for (const o of this.I.readRef(s.clone(), v, null)) this.found(o.s, o.v, keys, out, new Set([...seen, 'c' + v.id]));
        } else if (v.k === 'sym') {
            for (const m of v.key.matchAll(/«[^»]*»/g)) out.push({ mark: m[0].slice(1, -1), keys });
            for (const m of v.key.matchAll(/\b(?:obj|arr)#(\d+)/g)) into(Number(m[1]), keys);
        }
        return out;
    }
    // all markers reaching a sink: {mark, keys, sink}
    reaching(states, names) {
        const out = [];
        this.sim.under(this.scn, () => {
            for (const sink of this.sinks(names))
                for (const s of states)
                    for (const o of sink.ev(s.clone())) if (!o.c) for (const f of this.found(o.s, o.v)) out.push({ ...f, sink });
        });
        return out;
    }
}
const mark = (t) => Text(`«${t}»`);

// components of the library that take a style set
function styledComponents() {
    return L.sourceFiles(path.join(L.UI, 'components')).filter((f) => /\.vue$/.test(f));
}

// the declared shape of style sets: {css: plain CSS keys allowed, prims: own primitive keys, parts: nested sets, line}
const ts = L.ts;
let DECLS = null;
function declarations() {
    if (DECLS) return DECLS;
    DECLS = new Map();
    for (const f of L.sourceFiles(L.UI)) {
        if (!/\.ts$/.test(f)) continue;
        const m = L.loadModule(f);
        for (const n of m.sf.statements) if ((ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) && /StyleSet$/.test(n.name.text)) DECLS.set(n.name.text, { node: n, mod: m });
    }
    return DECLS;
}
const blank = () => ({ css: false, prims: new Map(), parts: new Map() });
function shape(t, depth = 0) {
    const out = blank();
    if (!t || depth > 6) return out;
    const join = (o) => {
        out.css = out.css || o.css;
        for (const [k, v] of o.prims) out.prims.set(k, v);
        for (const [k, v] of o.parts) out.parts.set(k, v);
    };
    const members = (list) => {
        for (const m of list) {
            if (!ts.isPropertySignature(m) || !m.type) continue;
            const name = m.name.text;
            if (!name.startsWith('$')) continue;
            if (primitive(m.type)) out.prims.set(name, m);
            else out.parts.set(name, { node: m, type: m.type });
        }
    };
    if (ts.isIntersectionTypeNode(t)) t.types.forEach((x) => join(shape(x, depth)));
    else if (ts.isParenthesizedTypeNode(t)) join(shape(t.type, depth));
    else if (ts.isTypeLiteralNode(t)) members(t.members);
    else if (ts.isTypeReferenceNode(t) || ts.isExpressionWithTypeArguments(t)) {
        const name = (t.typeName || t.expression).getText();
        if (name === 'CSSProperties') out.css = true;
        else if (['Omit', 'Partial', 'Pick', 'Required'].includes(name)) {
            const inner = shape(t.typeArguments[0], depth);
            const keys = t.typeArguments[1] ? [...t.typeArguments[1].getText().matchAll(/['"]([^'"]+)['"]/g)].map((m) => m[1]) : [];
            for (const m of [inner.prims, inner.parts]) for (const k of [...m.keys()]) if (name === 'Omit' ? keys.includes(k) : name === 'Pick' && !keys.includes(k)) m.delete(k);
            join(inner);
        } else {
            const d = declarations().get(name);
            if (d && ts.isInterfaceDeclaration(d.node)) {
                for (const h of d.node.heritageClauses || []) h.types.forEach((x) => join(shape(x, depth + 1)));
                members(d.node.members);
            } else if (d) join(shape(d.node.type, depth + 1));
        }
    }
    return out;
}
function primitive(t) {
    if ([ts.SyntaxKind.StringKeyword, ts.SyntaxKind.NumberKeyword].includes(t.kind)) return true;
    if (ts.isUnionTypeNode(t)) return t.types.every(primitive);
    if (ts.isLiteralTypeNode(t) || ts.isIndexedAccessTypeNode(t)) return true;
    if (ts.isIntersectionTypeNode(t)) return t.types.some(primitive);
    return false;
}
// the type a component declares for its style set
function declaredSet(mod) {
    let found = null;
    const visit = (n) => {
        if (!found && ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'getStyleSetProps' && n.typeArguments) found = n.typeArguments[0];
        ts.forEachChild(n, visit);
    };
    visit(mod.sf);
    return found;
}
module.exports = { Styled, Text, mark, styledComponents, shape, declaredSet };
