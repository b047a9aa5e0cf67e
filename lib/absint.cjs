'use strict';
// Path-sensitive, closure-sensitive abstract interpreter over TypeScript syntax trees.
// Opaque values carry canonical keys; unknown conditions fork the state; there is no solver.
const L = require('./load.cjs');
const { ts } = L;
const SK = ts.SyntaxKind;

let nextId = 1;
const fresh = () => nextId++;

// ---------------------------------------------------------------- persistent layers
class Layer {
    constructor(base = null, m = null, depth = 0) {
        this.base = base;
        this.m = m || new Map();
        this.depth = depth;
    }
    get(k) {
        let l = this;
        while (l) {
            const v = l.m.get(k);
            if (v !== undefined) return v === DEAD ? undefined : v;
            l = l.base;
        }
        return undefined;
    }
    set(k, v) {
        this.m.set(k, v);
    }
    del(k) {
        this.m.set(k, DEAD);
    }
    clone() {
        if (this.m.size > 24) {
            if (this.depth > 10) {
                const flat = new Map();
                this.each((k, v) => flat.set(k, v));
                this.base = new Layer(null, flat, 0);
                this.depth = 1;
            } else {
                this.base = new Layer(this.base, this.m, this.depth);
                this.depth++;
            }
            this.m = new Map();
        }
        return new Layer(this.base, new Map(this.m), this.depth);
    }
    each(f) {
        const seen = new Set();
        let l = this;
        while (l) {
            for (const [k, v] of l.m) {
                if (seen.has(k)) continue;
                seen.add(k);
                if (v !== DEAD) f(k, v);
            }
            l = l.base;
        }
    }
}
const DEAD = { dead: true };

// ---------------------------------------------------------------- values
const U = { k: 'lit', v: undefined };
const NULL = { k: 'lit', v: null };
const TRUE = { k: 'lit', v: true };
const FALSE = { k: 'lit', v: false };
function Lit(v) {
    if (v === undefined) return U;
    if (v === null) return NULL;
    if (v === true) return TRUE;
    if (v === false) return FALSE;
    return { k: 'lit', v };
}
function h32(s) {
    let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
    for (let i = 0; i < s.length; i++) {
        const c = s.charCodeAt(i);
        h1 = Math.imul(h1 ^ c, 2654435761);
        h2 = Math.imul(h2 ^ c, 1597334677);
    }
    return (h1 >>> 0).toString(36) + (h2 >>> 0).toString(36);
}
function shorten(key) {
    return key.length > 360 ? key.slice(0, 300) + '~' + h32(key) : key;
}
function Sym(key, extra) {
    return { k: 'sym', key: shorten(key), ...extra };
}
function keyOf(v) {
    switch (v.k) {
        case 'lit':
            return v.v === undefined ? 'undefined' : typeof v.v === 'bigint' ? v.v + 'n' : Number.isNaN(v.v) ? 'NaN' : v.v === Infinity || v.v === -Infinity ? String(v.v) : JSON.stringify(v.v);
        case 'sym':
            return v.key;
        case 'not':
            return '!' + keyOf(v.v);
        case 'fn':
            return v.key || `fn@${v.node ? v.mod.rel + ':' + v.node.pos : v.name}#${v.scope}`;
        case 'native':
            return v.key || `native:${v.name}`;
        case 'comp':
            return `comp:${v.mod.rel}`;
        case 'class':
            return `class:${v.mod.rel}:${v.node.pos}`;
        case 'ns':
            return `ns:${v.mod.rel}`;
        case 'promise':
            return v.rejected ? `rejected(${keyOf(v.v)})` : v.id ? `promise#${v.id}` : `promise(${keyOf(v.v)})`;
        case 'propref':
            return `propref:${v.props.inst.uid}.${v.name}`;
        case 'props':
            return `props:${v.inst.uid}`;
        case 'torefs':
            return `torefs:${keyOf(v.props)}`;
        case 'regex':
            return v.text;
        default:
            return `${v.k}#${v.id}`;
    }
}
const not = (v) => (v.k === 'lit' ? Lit(!v.v) : v.k === 'not' ? boolOf(v.v) : { k: 'not', v });
const boolOf = (v) => (v.k === 'not' ? v : { k: 'not', v: { k: 'not', v } });

// ---------------------------------------------------------------- state
const NOLATE = { late: false, ops: [], pend: [], up: null };
class St {
    constructor() {
        this.facts = new Map();
        this.live = new Layer();
        this.frozen = null;
        this.epoch = 0;
        this.ver = 0;
        this.ev = null;
        this.deferred = [];
        this.aw = ''; // activations that have passed an await, as |id| marks
        this.lt = NOLATE; // map writes that happen after an await, by activation
    }
    clone() {
        const s = new St();
        s.facts = new Map(this.facts);
        s.live = this.live.clone();
        s.frozen = this.frozen;
        s.epoch = this.epoch;
        s.ver = this.ver;
        s.ev = this.ev;
        s.deferred = this.deferred;
        s.aw = this.aw;
        s.lt = this.lt;
        return s;
    }
    events() {
        const out = [];
        for (let n = this.ev; n; n = n.prev) out.push(n.e);
        return out.reverse();
    }
}

class Budget extends Error {}

// ---------------------------------------------------------------- interpreter
class Interp {
    constructor(cfg = {}) {
        this.cfg = cfg;
        this.root = new Layer();
        this.thawMemo = new Map();
        this.modInfo = new Map();
        this.modVals = new Map();
        this.stack = [];
        this.names = new Map(); // cell id -> name
        this.writables = []; // computed values with a setter
        this.preds = new Map(); // assumed predicates by key
        this.pinned = new Map(); // cell id (or id.field) -> value assumed for a frozen cell
        this.stats = { functions: new Set(), callSites: new Set(), opaque: new Set(), forks: 0, merges: 0, steps: 0, truncated: 0, recursion: new Set(), unknownSyntax: new Set() };
        this.models = new Map(Object.entries(require('./models.cjs')));
        for (const [k, v] of Object.entries(cfg.models || {})) this.models.set(k, v);
        this.soft = cfg.soft || 10;
        this.mid = cfg.mid || 24;
        this.hard = cfg.hard || 300;
        this.maxSteps = cfg.maxSteps || 3e6;
        this.maxDepth = cfg.maxDepth || 60;
    }

    // ------------------------------------------------------------ location
    loc(node) {
        if (!node) return '?';
        const sf = node.getSourceFile();
        const m = sf.__mod;
        if (m) return `${m.rel}:${sf.__line + sf.getLineAndCharacterOfPosition(node.getStart(sf)).line}`;
        const p = sf.fileName.replace(/\.vue\.ts$/, '.vue');
        return `${L.rel(p)}:${sf.getLineAndCharacterOfPosition(node.getStart(sf)).line + 1}`;
    }
    fnName(node) {
        if (node.name) return node.name.getText();
        const p = node.parent;
        if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p))) return p.name.getText();
        return '<anonymous>';
    }
    path() {
        return this.stack.map((f) => `${f.name}@${f.loc}`);
    }

    // ------------------------------------------------------------ heap
    alloc(st, cell) {
        const id = fresh();
        st.live.set(id, cell);
        return id;
    }
    getCell(st, id) {
        const c = st.live.get(id);
        if (c) return c;
        let f = st.frozen ? st.frozen.get(id) : undefined;
        if (!f) f = this.root.get(id);
        if (!f) return undefined;
        const mk = id + '@' + st.epoch;
        let t = this.thawMemo.get(mk);
        if (!t || t.src !== f) {
            t = { src: f, cell: this.thaw(f, id, st.epoch) };
            this.thawMemo.set(mk, t);
        }
        return t.cell;
    }
    setCell(st, id, cell) {
        st.live.set(id, cell);
        st.ver++;
    }
    thaw(c, id, epoch) {
        const tag = epoch ? '@' + epoch : '';
        switch (c.t) {
            case 'ref':
                if (this.pinned.has(id)) return { ...c, value: this.pinned.get(id) };
                return { ...c, value: this.keepOnThaw(c.value) ? c.value : Sym(`cell:${c.name || ''}#${id}${tag}`, { cellId: id, init: c.value }) };
            case 'scope': {
                if (!c.mut.size) return c;
                const vars = new Map(c.vars);
                for (const n of c.mut) {
                    const v = vars.get(n);
                    if (v) vars.set(n, Sym(`var:${n}#${id}${tag}`, { varOf: id, init: v }));
                }
                return { ...c, vars };
            }
            case 'obj': {
                if (c.reactive) {
                    const props = new Map();
                    for (const [n, v] of c.props) props.set(n, ['fn', 'native', 'ref', 'computed', 'propref'].includes(v.k) ? v : this.pinned.get(`${id}.${n}`) || Sym(`field:${n}#${id}${tag}`));
                    return { ...c, props };
                }
                if (!c.mutFields || !c.mutFields.size) return c;
                const props = new Map(c.props);
                for (const n of c.mutFields) if (props.has(n)) props.set(n, this.pinned.get(`${id}.${n}`) || Sym(`field:${n}#${id}${tag}`, { init: props.get(n) }));
                return { ...c, props };
            }
            case 'arr':
                return c.mutated || (c.elems && !c.elems.length) ? { ...c, elems: null, key: `arr#${id}${tag}` } : c;
            case 'map':
                return { ...c, entries: new Map(), unknown: true };
            default:
                return c;
        }
    }
    pin(m) {
        this.pinned = m || new Map();
        this.thawMemo.clear();
    }
    keepOnThaw(v) {
        // a ref holding a collection keeps the collection's identity; its contents are unknown
        return v.k === 'map';
    }
    freeze(st) {
        // all current heap contents become the "arbitrary later moment" view
        const f = new Layer();
        if (st.frozen) st.frozen.each((k, v) => f.set(k, v));
        st.live.each((k, v) => f.set(k, v));
        const s = new St();
        s.frozen = f;
        s.epoch = st.epoch;
        s.ver = 0;
        return s;
    }
    bumpEpoch(st) {
        // forget everything about mutable cells (used at await boundaries when cfg.havocOnAwait)
        const f = new Layer();
        // variables of the running call are its own; those of the surrounding set-up are shared with other runs
        const keep = (k, v) => v.t === 'scope' && v.local && !(st.frozen && st.frozen.get(k)) && !this.root.get(k);
        if (st.frozen) st.frozen.each((k, v) => f.set(k, v));
        st.live.each((k, v) => {
            if (keep(k, v)) return;
            f.set(k, v);
        });
        const live = new Layer();
        st.live.each((k, v) => {
            if (keep(k, v)) live.set(k, v);
        });
        st.frozen = f;
        st.live = live;
        st.epoch++;
    }

    // ------------------------------------------------------------ events
    event(st, e) {
        if (this.cfg.onEvent) this.cfg.onEvent(e, st);
        if (this.cfg.keepEvent && !this.cfg.keepEvent(e, st)) return;
        e.path = this.path();
        e.facts = this.cfg.recordFacts ? new Map(st.facts) : undefined;
        const sig = this.eventSig(e);
        st.ev = { e, prev: st.ev, n: st.ev ? st.ev.n + 1 : 1, sig: h32((st.ev ? st.ev.sig : '') + sig) };
    }
    eventSig(e) {
        let s = e.t + '|' + (e.key || '') + '|' + (e.name || '') + '|' + (e.node ? e.node.pos : '') + '|';
        if (e.args) for (const a of e.args) s += keyOf(a) + ',';
        if (e.v) s += keyOf(e.v);
        if (e.cell) s += '#' + e.cell;
        if (e.inst) s += '!' + e.inst.uid;
        return s;
    }

    // ------------------------------------------------------------ facts
    norm(st, v) {
        if (v.k === 'sym') {
            const eq = st.facts.get('=' + v.key);
            if (eq !== undefined) return eq;
        }
        return v;
    }
    symTruth(st, v) {
        if (v.nonnull || v.atLeast) return true;
        // a generated identifier is not empty
        if (v.call && typeof v.call.fk === 'string' && v.call.fk.startsWith('import:nanoid#') && /\)$/.test(v.call.fk)) return true;
        const f = st.facts.get(v.key);
        if (f !== undefined) return f;
        const eq = st.facts.get('=' + v.key);
        if (eq !== undefined) return Boolean(eq.v);
        if (v.eq) {
            // value equality against a literal
            const other = st.facts.get('=' + v.eq.key);
            if (other !== undefined) return Object.is(other.v, v.eq.lit);
            const tr = st.facts.get(v.eq.key);
            if (tr === true && !v.eq.lit) return false;
            if (tr === false && v.eq.lit) return false;
            const nul = st.facts.get(`(${v.eq.key}==null)`);
            if (nul === false && (v.eq.lit === null || v.eq.lit === undefined)) return false;
            if (nul === true && v.eq.lit !== null && v.eq.lit !== undefined) return false;
        }
        if (v.nullOf !== undefined) {
            if (st.facts.get(v.nullOf) === true) return false;
            const o = st.facts.get('=' + v.nullOf);
            if (o !== undefined) return o.v === null || o.v === undefined;
        }
        if (this.cfg.decide) return this.cfg.decide(v, st);
        return undefined;
    }
    assume(st, v, b) {
        if (!this.preds.has(v.key)) this.preds.set(v.key, v);
        st.facts.set(v.key, b);
        if (v.eq && b) {
            st.facts.set('=' + v.eq.key, Lit(v.eq.lit));
            if (v.eq.typeofKey && v.eq.lit === 'function') st.facts.set(v.eq.typeofKey, true);
            if (v.eq.typeofKey && v.eq.lit === 'undefined') st.facts.set(v.eq.typeofKey, false);
        }
        if (v.eq && !b && typeof v.eq.lit === 'boolean' && v.eq.bool) st.facts.set('=' + v.eq.key, Lit(!v.eq.lit));
        if (v.isArrayOf && b) st.facts.set(v.isArrayOf, true);
        if (v.nullOf !== undefined && b) st.facts.set(v.nullOf, false);
        if (v.instOf && b) st.facts.set(v.instOf, true);
    }
    // -> {t: St|null, f: St|null}
    truth(st, v) {
        switch (v.k) {
            case 'lit':
                return v.v ? { t: st, f: null } : { t: null, f: st };
            case 'not': {
                const r = this.truth(st, v.v);
                return { t: r.f, f: r.t };
            }
            case 'sym': {
                const k = this.symTruth(st, v);
                if (k === true) return { t: st, f: null };
                if (k === false) return { t: null, f: st };
                const f = st.clone();
                this.assume(st, v, true);
                this.assume(f, v, false);
                this.stats.forks++;
                return { t: st, f };
            }
            default:
                return { t: st, f: null };
        }
    }
    nullish(st, v) {
        switch (v.k) {
            case 'lit':
                return v.v === null || v.v === undefined ? { t: st, f: null } : { t: null, f: st };
            case 'sym':
                if (v.nonnull) return { t: null, f: st };
                return this.truth(st, Sym(`(${v.key}==null)`, { nullOf: v.key }));
            default:
                return { t: null, f: st };
        }
    }

    // ------------------------------------------------------------ outcome plumbing
    bind(outs, f) {
        const res = [];
        for (const o of outs) {
            if (o.c) res.push(o);
            else res.push(...f(o.s, o.v));
        }
        return res;
    }
    compact(outs, force) {
        if (outs.length < 2 || (!force && outs.length <= this.soft)) return outs;
        const keep = this.cfg.keepFact;
        const groups = new Map();
        for (const o of outs) {
            let fs = '';
            if (keep) {
                for (const k of [...o.s.facts.keys()]) if (!keep(k)) o.s.facts.delete(k);
            }
            for (const [k, v] of [...o.s.facts].sort((a, b) => (a[0] < b[0] ? -1 : 1))) fs += k + (typeof v === 'object' ? keyOf(v) : v) + ';';
            const vk = o.c === 'brk' || o.c === 'cont' || !o.v ? '' : o.v.k === 'lit' || o.v.k === 'not' || o.v.k === 'promise' || o.v.k === 'fn' ? keyOf(o.v) : o.v.k;
            const dk = o.s.deferred.map((d) => keyOf(d.fn)).join(',');
            const g = `${o.c || ''}|${o.label || ''}|${vk}|${this.cfg.valueKey && o.v ? this.cfg.valueKey(o.s, o.v) : ''}|${fs}|${o.s.ev ? o.s.ev.sig : ''}|${o.s.epoch}|${o.s.aw}|${dk}|${this.lateKey(o.s)}`;
            const a = groups.get(g);
            if (a) a.push(o);
            else groups.set(g, [o]);
        }
        let res = [];
        for (const g of groups.values()) res.push(g.length === 1 ? g[0] : this.mergeOuts(g));
        if (res.length > this.mid) {
            // keep only the facts common to states with the same event history
            const g2 = new Map();
            for (const o of res) {
                const vk = !o.v ? '' : o.v.k === 'lit' ? keyOf(o.v) : o.v.k === 'promise' ? (o.v.rejected ? 'R' : 'P') : '';
                const k = `${o.c || ''}|${o.label || ''}|${vk}|${this.cfg.valueKey && o.v ? this.cfg.valueKey(o.s, o.v) : ''}|${o.s.ev ? o.s.ev.sig : ''}|${o.s.epoch}|${o.s.aw}|${o.s.deferred.map((d) => keyOf(d.fn)).join(',')}|${this.lateKey(o.s)}`;
                const a = g2.get(k);
                if (a) a.push(o);
                else g2.set(k, [o]);
            }
            res = [];
            for (const g of g2.values()) res.push(g.length === 1 ? g[0] : this.mergeOuts(g, true));
            if (res.length > this.hard) {
                this.stats.truncated += res.length - this.hard;
                res.length = this.hard;
            }
        }
        return res;
    }
    mergeOuts(g, intersect) {
        this.stats.merges += g.length - 1;
        const a = g[0];
        const s = a.s.clone();
        let v = a.v;
        for (let i = 1; i < g.length; i++) {
            const b = g[i];
            if (intersect) for (const [k, x] of [...s.facts]) {
                const y = b.s.facts.get(k);
                if (y === undefined || (typeof x === 'object' ? keyOf(x) !== keyOf(y) : x !== y)) s.facts.delete(k);
            }
            const keys = new Set();
            s.live.each((k) => keys.add(k));
            b.s.live.each((k) => keys.add(k));
            for (const k of keys) {
                const ca = s.live.get(k) || this.getCell(s, k);
                const cb = b.s.live.get(k) || this.getCell(b.s, k);
                if (ca === cb || !cb) continue;
                if (!ca) {
                    s.live.set(k, cb);
                    continue;
                }
                s.live.set(k, this.joinCell(ca, cb, k));
            }
            if (v || b.v) v = this.joinVal(v || U, b.v || U);
            s.ver = Math.max(s.ver, b.s.ver);
        }
        return { ...a, s, v };
    }
    joinVal(a, b) {
        if (a === b) return a;
        const ka = keyOf(a), kb = keyOf(b);
        if (ka === kb) return a;
        if (a.k === 'promise' && b.k === 'promise' && Object.keys(a).join() === Object.keys(b).join() && a.rejected === b.rejected && a.v && b.v && a.id === undefined) return { ...a, v: this.joinVal(a.v, b.v) };
        return Sym(ka < kb ? `phi(${ka}|${kb})` : `phi(${kb}|${ka})`, { phi: [...(a.phi || [a]), ...(b.phi || [b])].slice(0, 6), nonnull: this.isObj(a) && this.isObj(b) });
    }
    isObj(v) {
        return ['obj', 'arr', 'fn', 'ref', 'computed', 'map', 'native', 'comp', 'class', 'promise'].includes(v.k) || (v.k === 'sym' && v.nonnull);
    }
    joinCell(a, b, id) {
        if (a.t !== b.t) return a;
        const jm = (ma, mb) => {
            const r = new Map();
            for (const [n, v] of ma) r.set(n, mb.has(n) ? this.joinVal(v, mb.get(n)) : v);
            for (const [n, v] of mb) if (!r.has(n)) r.set(n, v);
            return r;
        };
        switch (a.t) {
            case 'ref':
                return { ...a, value: this.joinVal(a.value, b.value) };
            case 'scope':
                return { ...a, vars: jm(a.vars, b.vars), captured: a.captured || b.captured };
            case 'obj':
                return { ...a, props: jm(a.props, b.props), spreads: a.spreads.length >= b.spreads.length ? a.spreads : b.spreads };
            case 'arr':
                if (a.elems && b.elems && a.elems.length === b.elems.length) return { ...a, elems: a.elems.map((x, i) => this.joinVal(x, b.elems[i])) };
                if (this.cfg.joinLists && a.elems && b.elems) {
                    // what both have, and an unknown rest
                    const keys = new Set(b.elems.map(keyOf));
                    const both = a.elems.filter((x) => !x.rest && keys.has(keyOf(x)));
                    const rest = Sym(`rest(arr#${id})`, { nonnull: true });
                    return { ...a, elems: [...both, { ...Sym(`...${rest.key}`), spreadOf: rest, rest: true }], key: `arr#${id}` };
                }
                return { ...a, elems: null, key: `arr#${id}` };
            case 'map':
                return { ...a, entries: jm(a.entries, b.entries), unknown: true };
            default:
                return a;
        }
    }

    // ------------------------------------------------------------ modules
    info(mod) {
        let i = this.modInfo.get(mod.path);
        if (i) return i;
        i = { imports: new Map(), decls: new Map(), exports: new Map(), stars: [], def: null, sideEffects: [] };
        this.modInfo.set(mod.path, i);
        const has = (n, k) => (ts.getCombinedModifierFlags(n) & k) !== 0;
        const exported = (n) => n.modifiers && n.modifiers.some((m) => m.kind === SK.ExportKeyword);
        const isDefault = (n) => n.modifiers && n.modifiers.some((m) => m.kind === SK.DefaultKeyword);
        for (const s of mod.sf.statements) {
            if (ts.isImportDeclaration(s)) {
                const spec = s.moduleSpecifier.text;
                const c = s.importClause;
                if (!c) {
                    i.sideEffects.push(s);
                    continue;
                }
                const typeOnly = c.isTypeOnly;
                if (c.name) i.imports.set(c.name.text, { spec, name: 'default', typeOnly });
                if (c.namedBindings) {
                    if (ts.isNamespaceImport(c.namedBindings)) i.imports.set(c.namedBindings.name.text, { spec, name: '*', typeOnly });
                    else for (const e of c.namedBindings.elements) i.imports.set(e.name.text, { spec, name: (e.propertyName || e.name).text, typeOnly: typeOnly || e.isTypeOnly });
                }
            } else if (ts.isExportDeclaration(s)) {
                const spec = s.moduleSpecifier ? s.moduleSpecifier.text : null;
                if (!s.exportClause) i.stars.push({ spec, typeOnly: s.isTypeOnly });
                else if (ts.isNamedExports(s.exportClause)) for (const e of s.exportClause.elements) i.exports.set(e.name.text, { spec, name: (e.propertyName || e.name).text, typeOnly: s.isTypeOnly || e.isTypeOnly, node: e });
                else i.exports.set(s.exportClause.name.text, { spec, name: '*', node: s });
            } else if (ts.isExportAssignment(s)) {
                i.def = s.expression;
            } else if (ts.isVariableStatement(s)) {
                for (const d of s.declarationList.declarations) {
                    const names = [];
                    const coll = (n) => {
                        if (ts.isIdentifier(n)) names.push(n.text);
                        else for (const e of n.elements) if (e.name) coll(e.name);
                    };
                    coll(d.name);
                    for (const n of names) {
                        i.decls.set(n, { kind: 'var', node: d, const: (s.declarationList.flags & ts.NodeFlags.Const) !== 0 });
                        if (exported(s)) i.exports.set(n, { local: n, node: d });
                    }
                }
            } else if (ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isEnumDeclaration(s)) {
                if (s.name) i.decls.set(s.name.text, { kind: ts.isFunctionDeclaration(s) ? 'fn' : ts.isClassDeclaration(s) ? 'class' : 'enum', node: s });
                if (exported(s)) {
                    if (isDefault(s)) i.exports.set('default', { local: s.name ? s.name.text : null, node: s });
                    else i.exports.set(s.name.text, { local: s.name.text, node: s });
                }
            } else if (ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) {
                i.decls.set(s.name.text, { kind: 'type', node: s });
                if (exported(s)) i.exports.set(s.name.text, { local: s.name.text, typeOnly: true, node: s });
            } else if (ts.isModuleDeclaration(s)) {
                /* ambient */
            } else i.sideEffects.push(s);
        }
        return i;
    }
    modScope(mod) {
        const id = 'mod:' + mod.path;
        if (!this.root.get(id)) {
            const vars = new Map(), mut = new Set();
            for (const [n, d] of this.info(mod).decls) if (d.kind === 'var' && !d.const) {
                vars.set(n, U);
                mut.add(n);
            }
            this.root.set(id, { t: 'scope', vars, mut, parent: null, captured: true });
        }
        return id;
    }
    rootEval(f) {
        // evaluates module-level code in an otherwise empty state; resulting cells become root cells
        const st = new St();
        const saveStack = this.stack;
        this.stack = [];
        const keepEvent = this.cfg.keepEvent;
        this.cfg.keepEvent = () => false;
        let outs;
        try {
            outs = f(st);
        } finally {
            this.stack = saveStack;
            this.cfg.keepEvent = keepEvent;
        }
        const ok = outs.filter((o) => !o.c);
        if (!ok.length) return Sym('modinit:unknown');
        const o = ok.length === 1 ? ok[0] : this.mergeOuts(ok, true);
        o.s.live.each((k, v) => this.root.set(k, v));
        return o.v || U;
    }
    modVar(mod, name) {
        const key = mod.path + '::' + name;
        if (this.modVals.has(key)) return this.modVals.get(key);
        const inf = this.info(mod);
        const imp = inf.imports.get(name);
        let v;
        if (imp) {
            v = this.importVal(mod, imp);
        } else {
            const d = inf.decls.get(name);
            if (!d) return undefined;
            if (d.kind === 'fn') v = { k: 'fn', node: d.node, scope: null, mod, key: `fn@${mod.rel}:${d.node.pos}` };
            else if (d.kind === 'class') v = { k: 'class', node: d.node, scope: null, mod };
            else if (d.kind === 'enum') v = this.rootEval((st) => [{ s: st, v: this.enumVal(d.node, st, { scope: null, mod }) }]);
            else if (d.kind === 'var' && d.const) {
                this.modVals.set(key, Sym(`modcycle:${mod.rel}#${name}`));
                if (ts.isIdentifier(d.node.name)) v = d.node.initializer ? this.rootEval((st) => this.named(this.ev(d.node.initializer, st, { scope: null, mod }), name)) : U;
                else {
                    const whole = this.rootEval((st) => this.ev(d.node.initializer, st, { scope: null, mod }));
                    const sc = { t: 'scope', vars: new Map(), mut: new Set(), parent: null };
                    v = this.rootEval((st) => {
                        const id = this.alloc(st, sc);
                        return this.bind(this.bindPattern(d.node.name, whole, st, { scope: id, mod }, id, true), (s) => [{ s, v: this.getCell(s, id).vars.get(name) || U }]);
                    });
                }
            } else return undefined;
        }
        this.modVals.set(key, v);
        return v;
    }
    named(outs, name) {
        for (const o of outs) if (!o.c && o.v && o.v.id && ['ref', 'computed', 'map', 'arr', 'obj'].includes(o.v.k)) {
            if (!this.names.has(o.v.id)) this.names.set(o.v.id, name);
            const c = o.s.live.get(o.v.id);
            if (c && !c.name) o.s.live.set(o.v.id, { ...c, name });
        }
        return outs;
    }
    importVal(mod, imp) {
        const p = L.resolveImport(imp.spec, mod.path);
        if (!p) return Sym(`import:${imp.spec}#${imp.name}`, { nonnull: true, imp });
        const m2 = L.loadModule(p);
        return this.exportVal(m2, imp.name);
    }
    exportVal(mod, name, seen = new Set()) {
        if (name === '*') return { k: 'ns', mod };
        if (name === 'default' && mod.kind === 'vue') return { k: 'comp', mod };
        if (seen.has(mod.path + name)) return undefined;
        seen.add(mod.path + name);
        const inf = this.info(mod);
        if (name === 'default' && inf.def) {
            const key = mod.path + '::default';
            if (!this.modVals.has(key)) this.modVals.set(key, this.rootEval((st) => this.ev(inf.def, st, { scope: null, mod })));
            return this.modVals.get(key);
        }
        const e = inf.exports.get(name);
        if (e) {
            if (e.spec !== undefined && e.spec !== null) {
                const p = L.resolveImport(e.spec, mod.path);
                if (!p) return Sym(`import:${e.spec}#${e.name}`, { nonnull: true });
                return this.exportVal(L.loadModule(p), e.name, seen);
            }
            const local = e.local || e.name;
            const v = this.modVar(mod, local);
            if (v !== undefined) return v;
            if (inf.decls.get(local)?.kind === 'var') return Sym(`modlet:${mod.rel}#${local}`);
            return Sym(`export:${mod.rel}#${name}`);
        }
        for (const s of inf.stars) {
            const p = L.resolveImport(s.spec, mod.path);
            if (!p) continue;
            const v = this.exportVal(L.loadModule(p), name, seen);
            if (v !== undefined) return v;
        }
        return undefined;
    }
    enumVal(node, st, env) {
        const props = new Map();
        let n = 0;
        for (const m of node.members) {
            const name = m.name.text;
            let v;
            if (m.initializer) {
                const o = this.ev(m.initializer, st, env);
                v = o[0].v;
                if (v.k === 'lit' && typeof v.v === 'number') n = v.v + 1;
            } else v = Lit(n++);
            props.set(name, v);
        }
        // numbers map back to names
        const back = [...props].filter(([, v]) => v.k === 'lit' && typeof v.v === 'number').map(([name, v]) => [String(v.v), Lit(name)]);
        return { k: 'obj', id: this.alloc(st, { t: 'obj', props: new Map([...back, ...props]), spreads: [], enumNode: node }) };
    }

    // ------------------------------------------------------------ identifiers
    lookup(name, st, env) {
        let id = env.scope;
        while (id !== null && id !== undefined) {
            const c = this.getCell(st, id);
            if (!c) break;
            if (c.vars.has(name)) return { v: c.vars.get(name), scope: id };
            id = c.parent;
        }
        if (env.inst && env.inst.tplLookup) {
            const r = env.inst.tplLookup(name, st, this);
            if (r) return r;
        }
        if (env.mod) {
            const mv = this.modVar(env.mod, name);
            if (mv !== undefined) return { v: mv };
            const ms = this.modScope(env.mod);
            const c = this.getCell(st, ms);
            if (c.vars.has(name)) return { v: c.vars.get(name), scope: ms };
        }
        if (name === 'undefined') return { v: U };
        if (name === 'NaN') return { v: Lit(NaN) };
        if (name === 'Infinity') return { v: Lit(Infinity) };
        if (env.inst && env.inst.tplLookup && !TPL_GLOBALS.has(name)) return { v: Sym(`tpl:${env.inst.uid}.${name}`) };
        return { v: Sym(`global:${name}`, { nonnull: true }) };
    }
    declare(st, scope, name, v, isConst) {
        const c = this.getCell(st, scope);
        const vars = new Map(c.vars);
        vars.set(name, v);
        let mut = c.mut;
        if (!isConst && !mut.has(name)) {
            mut = new Set(mut);
            mut.add(name);
        }
        st.live.set(scope, { ...c, vars, mut });
    }
    assignVar(st, env, name, v, node) {
        let id = env.scope;
        while (id !== null && id !== undefined) {
            const c = this.getCell(st, id);
            if (!c) break;
            if (c.vars.has(name)) {
                const vars = new Map(c.vars);
                vars.set(name, v);
                st.live.set(id, { ...c, vars, mut: c.mut.has(name) ? c.mut : new Set([...c.mut, name]) });
                st.ver++;
                if (c.captured) this.event(st, { t: 'assign', name, v, scope: id, node });
                return [{ s: st, v }];
            }
            id = c.parent;
        }
        if (env.inst && env.inst.tplAssign) {
            const r = env.inst.tplAssign(name, v, st, this, node);
            if (r) return r;
        }
        if (env.mod) {
            const ms = this.modScope(env.mod);
            const c = this.getCell(st, ms);
            if (c.vars.has(name)) {
                this.mapOp(st, ms, (s) => {
                    const c2 = this.getCell(s, ms);
                    s.live.set(ms, { ...c2, vars: new Map(c2.vars).set(name, v) });
                });
                st.ver++;
                this.event(st, { t: 'assign', name, v, scope: ms, modvar: true, node });
                return [{ s: st, v }];
            }
        }
        this.event(st, { t: 'assign', name, v, global: true, node });
        return [{ s: st, v }];
    }
    newScope(st, parent, extra) {
        return this.alloc(st, { t: 'scope', vars: new Map(), mut: new Set(), parent, ...extra });
    }
    markCaptured(st, scope) {
        let id = scope;
        while (id !== null && id !== undefined) {
            const c = this.getCell(st, id);
            if (!c || c.captured) return;
            st.live.set(id, { ...c, captured: true });
            id = c.parent;
        }
    }
    freeVars(node) {
        if (node.__free) return node.__free;
        const used = new Set(), bound = new Set();
        const visit = (n) => {
            if (ts.isTypeNode(n)) return;
            if (ts.isIdentifier(n)) {
                const p = n.parent;
                if (ts.isPropertyAccessExpression(p) && p.name === n) return;
                if (ts.isPropertyAssignment(p) && p.name === n) return;
                if ((ts.isParameter(p) || ts.isVariableDeclaration(p) || ts.isFunctionDeclaration(p) || ts.isBindingElement(p)) && p.name === n) {
                    bound.add(n.text);
                    return;
                }
                used.add(n.text);
                return;
            }
            ts.forEachChild(n, visit);
        };
        ts.forEachChild(node, visit);
        node.__free = [...used].filter((x) => !bound.has(x)).sort();
        return node.__free;
    }
    closure(node, st, env) {
        this.markCaptured(st, env.scope);
        let key = `fn@${env.mod ? env.mod.rel : ''}:${node.pos}`;
        const cap = [];
        for (const n of this.freeVars(node)) {
            let id = env.scope;
            while (id !== null && id !== undefined) {
                const c = this.getCell(st, id);
                if (!c) break;
                if (c.vars.has(n)) {
                    const v = c.vars.get(n);
                    cap.push(n + '=' + (v.k === 'fn' ? `fn@${v.node ? v.node.pos : ''}` : keyOf(v)));
                    break;
                }
                id = c.parent;
            }
        }
        if (cap.length) key += '{' + h32(cap.join(',')) + '}';
        return { k: 'fn', node, scope: env.scope, mod: env.mod, inst: env.inst, thisv: ts.isArrowFunction(node) ? env.thisv : undefined, key };
    }

    // ------------------------------------------------------------ statements
    hoist(stmts, st, env) {
        for (const s of stmts) {
            if (ts.isFunctionDeclaration(s) && s.name && s.body) this.declare(st, env.scope, s.name.text, U, true);
            if (ts.isClassDeclaration(s) && s.name) this.declare(st, env.scope, s.name.text, { k: 'class', node: s, scope: env.scope, mod: env.mod }, true);
        }
        for (const s of stmts) {
            if (ts.isFunctionDeclaration(s) && s.name && s.body) this.declare(st, env.scope, s.name.text, this.closure(s, st, env), true);
        }
    }
    block(stmts, st, env) {
        // -> outcomes; normal completion has c undefined
        this.hoist(stmts, st, env);
        let cur = [{ s: st }];
        const done = [];
        for (const s of stmts) {
            const next = [];
            for (const o of cur) {
                for (const r of this.exec(s, o.s, env)) (r.c ? done : next).push(r);
            }
            cur = this.compact(next);
            if (!cur.length) break;
        }
        return [...cur, ...(done.length > this.soft ? this.compact(done) : done)];
    }
    exec(n, st, env) {
        if (++this.stats.steps > this.maxSteps) throw new Budget('step budget exceeded');
        switch (n.kind) {
            case SK.Block: {
                const sc = this.newScope(st, env.scope, { local: true });
                return this.dropScope(this.block(n.statements, st, { ...env, scope: sc }), sc);
            }
            case SK.ExpressionStatement:
                return this.ev(n.expression, st, env).map((o) => (o.c ? o : { s: o.s }));
            case SK.VariableStatement:
                return this.varDecls(n.declarationList, st, env);
            case SK.FunctionDeclaration:
            case SK.ClassDeclaration:
            case SK.InterfaceDeclaration:
            case SK.TypeAliasDeclaration:
            case SK.EmptyStatement:
            case SK.ModuleDeclaration:
                return [{ s: st }];
            case SK.EnumDeclaration:
                this.declare(st, env.scope, n.name.text, this.enumVal(n, st, env), true);
                return [{ s: st }];
            case SK.ReturnStatement:
                if (!n.expression) return [{ s: st, c: 'ret', v: U, node: n }];
                return this.ev(n.expression, st, env).map((o) => (o.c ? o : { s: o.s, c: 'ret', v: o.v, node: n }));
            case SK.IfStatement: {
                const r = this.cond(n.expression, st, env);
                const out = [...r.thrown];
                for (const s of this.compactStates(r.t)) out.push(...this.exec(n.thenStatement, s, env));
                for (const s of this.compactStates(r.f)) {
                    if (n.elseStatement) out.push(...this.exec(n.elseStatement, s, env));
                    else out.push({ s });
                }
                return out;
            }
            case SK.ThrowStatement:
                return this.ev(n.expression, st, env).map((o) => (o.c ? o : { s: o.s, c: 'throw', v: o.v, node: n }));
            case SK.BreakStatement:
                return [{ s: st, c: 'brk', label: n.label && n.label.text }];
            case SK.ContinueStatement:
                return [{ s: st, c: 'cont', label: n.label && n.label.text }];
            case SK.LabeledStatement:
                return this.exec(n.statement, st, { ...env, label: n.label.text }).map((o) => (o.c === 'brk' && o.label === n.label.text ? { s: o.s } : o));
            case SK.ForStatement: {
                const sc = this.newScope(st, env.scope, { local: true });
                const e2 = { ...env, scope: sc };
                let outs = [{ s: st }];
                if (n.initializer) outs = ts.isVariableDeclarationList(n.initializer) ? this.varDecls(n.initializer, st, e2) : this.ev(n.initializer, st, e2).map((o) => (o.c ? o : { s: o.s }));
                return this.dropScope(this.bind(outs, (s) => this.loop(n, s, e2, n.condition, n.incrementor, n.statement)), sc);
            }
            case SK.WhileStatement:
                return this.loop(n, st, env, n.expression, null, n.statement);
            case SK.DoStatement: {
                const outs = this.exec(n.statement, st, env);
                const res = [];
                for (const o of outs) {
                    if (!o.c || (o.c === 'cont' && !o.label)) res.push(...this.loop(n, o.s, env, n.expression, null, n.statement));
                    else if (o.c === 'brk' && !o.label) res.push({ s: o.s });
                    else res.push(o);
                }
                return res;
            }
            case SK.ForOfStatement:
            case SK.ForInStatement:
                return this.forOf(n, st, env);
            case SK.SwitchStatement:
                return this.switchStmt(n, st, env);
            case SK.TryStatement:
                return this.tryStmt(n, st, env);
            default:
                this.stats.unknownSyntax.add(SK[n.kind] + ' ' + this.loc(n));
                return [{ s: st }];
        }
    }
    dropScope(outs, sc) {
        for (const o of outs) {
            const c = o.s.live.get(sc);
            if (c && !c.captured) o.s.live.del(sc);
        }
        return outs;
    }
    varDecls(list, st, env) {
        const isConst = (list.flags & ts.NodeFlags.Const) !== 0;
        let outs = [{ s: st }];
        for (const d of list.declarations) {
            outs = this.bind(outs, (s) => {
                if (!d.initializer) {
                    if (ts.isIdentifier(d.name)) this.declare(s, env.scope, d.name.text, U, isConst);
                    return [{ s }];
                }
                let r = this.ev(d.initializer, s, env);
                if (ts.isIdentifier(d.name)) r = this.named(r, d.name.text);
                return this.bind(r, (s2, v) => this.bindPattern(d.name, v, s2, env, env.scope, isConst));
            });
            outs = this.compact(outs);
        }
        return outs;
    }
    assignedIn(node) {
        if (node.__assigned) return node.__assigned;
        const names = new Set();
        const visit = (n) => {
            if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(n.left)) names.add(n.left.text);
            else if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.EqualsToken && (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left))) {
                const all = (x) => {
                    if (ts.isIdentifier(x)) names.add(x.text);
                    ts.forEachChild(x, all);
                };
                all(n.left);
            }
            if ((ts.isForOfStatement(n) || ts.isForInStatement(n)) && ts.isIdentifier(n.initializer)) names.add(n.initializer.text);
            if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) && ts.isIdentifier(n.operand)) names.add(n.operand.text);
            ts.forEachChild(n, visit);
        };
        visit(node);
        node.__assigned = names;
        return names;
    }
    // a binding that nothing in its function (or file) reassigns is as good as const
    reassigned(id) {
        let n = id.parent;
        while (n && !ts.isFunctionLike(n) && !ts.isSourceFile(n)) n = n.parent;
        return !n || this.assignedIn(n).has(id.text);
    }
    // what a variable changed by a loop starts from and what the loop works with
    loopInfo(st, env, tag, init, node) {
        if (!this.loops) this.loops = new Map();
        if (!this.loops.has(tag)) this.loops.set(tag, new Map());
        const vals = this.loops.get(tag);
        const add = (v) => v && !keyOf(v).includes(tag) && vals.size < 40 && vals.set(keyOf(v), v);
        if (keyOf(init || U).includes(tag)) return;
        add(init);
        const visit = (n) => {
            if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) {
                for (let id = env.scope; id !== null && id !== undefined; ) {
                    const c = this.getCell(st, id);
                    if (!c) break;
                    if (c.vars.has(n.text)) {
                        add(c.vars.get(n.text));
                        break;
                    }
                    id = c.parent;
                }
            }
            ts.forEachChild(n, visit);
        };
        visit(node);
    }
    havocVars(st, env, names, node) {
        const pos = node.pos;
        for (const n of names) {
            let id = env.scope;
            while (id !== null && id !== undefined) {
                const c = this.getCell(st, id);
                if (!c) break;
                if (c.vars.has(n)) {
                    const vars = new Map(c.vars);
                    if (this.cfg.loopText) this.loopInfo(st, env, `loop:${n}@${pos}`, vars.get(n), node);
                    vars.set(n, Sym(`loop:${n}@${pos}`, { loopInit: vars.get(n), loop: this.cfg.loopText ? { tag: `loop:${n}@${pos}`, node } : undefined }));
                    st.live.set(id, { ...c, vars });
                    break;
                }
                id = c.parent;
            }
        }
        // facts about previous values of these loop symbols no longer apply
        for (const n of names) {
            const tag = `loop:${n}@${pos}`;
            for (const k of [...st.facts.keys()]) if (k.includes(tag)) st.facts.delete(k);
        }
    }
    loop(n, st, env, condE, incE, body) {
        // a decided condition is followed exactly for a few rounds
        if (this.cfg.unroll && condE) {
            const out = [];
            let cur = [{ s: st }];
            for (let i = 0; i < this.cfg.unroll && cur.length; i++) {
                const probe = cur.map((o) => this.cond(condE, o.s.clone(), env));
                if (probe.some((r) => r.thrown.length || (r.t.length && r.f.length) || r.t.length > 1)) return [...out, ...cur.flatMap((o) => this.summaryLoop(n, o.s, env, condE, incE, body))];
                const next = [];
                for (const r of probe) {
                    for (const s of r.f) out.push({ s });
                    for (const s of r.t)
                        for (const o of this.compact(this.exec(body, s, env))) {
                            if (o.c === 'brk' && (!o.label || o.label === env.label)) out.push({ s: o.s });
                            else if (!o.c || (o.c === 'cont' && (!o.label || o.label === env.label))) next.push(...(incE ? this.ev(incE, o.s, env) : [{ s: o.s }]));
                            else out.push(o);
                        }
                }
                cur = [];
                for (const o of next) (o.c ? out : cur).push(o);
                cur = this.compact(cur.map((o) => ({ s: o.s })));
            }
            return this.compact([...out, ...cur.flatMap((o) => this.summaryLoop(n, o.s, env, condE, incE, body))]);
        }
        return this.summaryLoop(n, st, env, condE, incE, body);
    }
    summaryLoop(n, st, env, condE, incE, body) {
        const names = this.assignedIn(n);
        this.havocVars(st, env, names, n);
        const out = [];
        const r = condE ? this.cond(condE, st, env) : { t: [st], f: [], thrown: [] };
        out.push(...r.thrown);
        for (const s of r.f) out.push({ s });
        for (const s of this.compactStates(r.t)) {
            for (const o of this.compact(this.exec(body, s, env))) {
                if (o.c === 'brk' && (!o.label || o.label === env.label)) out.push({ s: o.s });
                else if (!o.c || (o.c === 'cont' && (!o.label || o.label === env.label))) {
                    let ss = [{ s: o.s }];
                    if (incE) ss = this.ev(incE, o.s, env);
                    for (const x of ss) {
                        if (x.c) {
                            out.push(x);
                            continue;
                        }
                        this.havocVars(x.s, env, names, n);
                        if (condE) {
                            const r2 = this.cond(condE, x.s, env);
                            for (const s2 of r2.f) out.push({ s: s2 });
                            out.push(...r2.thrown);
                        }
                    }
                } else out.push(o);
            }
        }
        return this.compact(out);
    }
    forOf(n, st, env) {
        return this.bind(this.ev(n.expression, st, env), (s, v) => {
            v = this.norm(s, v);
            const bodyOnce = (s2, elem) => {
                const sc = this.newScope(s2, env.scope, { local: true });
                const e2 = { ...env, scope: sc };
                let outs;
                if (ts.isVariableDeclarationList(n.initializer)) outs = this.bindPattern(n.initializer.declarations[0].name, elem, s2, e2, sc, true);
                else outs = this.assignTo(n.initializer, elem, s2, e2, n);
                return this.dropScope(this.bind(outs, (s3) => this.exec(n.statement, s3, e2)), sc);
            };
            const elems = n.kind === SK.ForOfStatement ? this.elements(s, v) : null;
            if (elems && elems.length <= (this.cfg.each || 24)) {
                let cur = [{ s }];
                const done = [];
                for (const e of elems) {
                    const next = [];
                    for (const o of cur) for (const r of bodyOnce(o.s, e)) {
                        if (!r.c || (r.c === 'cont' && (!r.label || r.label === env.label))) next.push({ s: r.s });
                        else if (r.c === 'brk' && (!r.label || r.label === env.label)) done.push({ s: r.s });
                        else done.push(r);
                    }
                    cur = this.compact(next);
                }
                return [...cur, ...done];
            }
            const names = this.assignedIn(n.statement);
            // an unknown part of the list: zero or one iteration
            const some = (s2, list) => {
                const skip = s2.clone();
                this.havocVars(s2, env, names, n);
                const go = [{ s: skip }], end = [];
                for (const r of this.compact(bodyOnce(s2, this.elemOf(list)))) {
                    if (!r.c || ((r.c === 'cont' || r.c === 'brk') && (!r.label || r.label === env.label))) {
                        this.havocVars(r.s, env, names, n);
                        (r.c === 'brk' ? end : go).push({ s: r.s });
                    } else end.push(r);
                }
                return { go, end };
            };
            const cell = v.k === 'arr' && n.kind === SK.ForOfStatement ? this.getCell(s, v.id) : null;
            if (cell && cell.elems && cell.elems.length <= (this.cfg.each || 24)) {
                let cur = [{ s }];
                const done = [];
                for (const e of cell.elems) {
                    const next = [];
                    for (const o of cur) {
                        if (e.spreadOf) {
                            const r = some(o.s, e.spreadOf);
                            next.push(...r.go);
                            done.push(...r.end);
                            continue;
                        }
                        for (const r of bodyOnce(o.s, e)) {
                            if (!r.c || (r.c === 'cont' && (!r.label || r.label === env.label))) next.push({ s: r.s });
                            else if (r.c === 'brk' && (!r.label || r.label === env.label)) done.push({ s: r.s });
                            else done.push(r);
                        }
                    }
                    cur = this.compact(next);
                }
                return [...cur, ...done];
            }
            const r = some(s, v);
            const out = [...r.go, ...r.end];
            return this.compact(out);
        });
    }
    elemOf(v) {
        if (v.elem) return v.elem;
        return Sym(`${keyOf(v)}[*]`, { elemOf: v });
    }
    elements(st, v) {
        if (v.k === 'arr') {
            const c = this.getCell(st, v.id);
            return c && c.elems && !c.elems.some((e) => e.spreadOf) ? c.elems : null;
        }
        if (v.k === 'map' && v.kind === 'Set' && this.cfg.knownSets) {
            const c = this.getCell(st, v.id);
            return c && !c.unknown ? [...c.entries.values()] : null;
        }
        if (v.k === 'lit' && typeof v.v === 'string' && v.v.length < 24) return [...v.v].map(Lit);
        return null;
    }
    switchStmt(n, st, env) {
        return this.bind(this.ev(n.expression, st, env), (s0, d) => {
            const clauses = n.caseBlock.clauses;
            const sc = this.newScope(s0, env.scope, { local: true });
            const e2 = { ...env, scope: sc };
            const out = [];
            let cur = [{ s: s0 }];
            const runFrom = (s, i) => {
                let c2 = [{ s }];
                for (let j = i; j < clauses.length && c2.length; j++) {
                    const next = [];
                    for (const o of c2) for (const r of this.block(clauses[j].statements, o.s, e2)) {
                        if (!r.c) next.push(r);
                        else if (r.c === 'brk' && !r.label) out.push({ s: r.s });
                        else out.push(r);
                    }
                    c2 = this.compact(next);
                }
                out.push(...c2.map((o) => ({ s: o.s })));
            };
            let defIdx = -1;
            clauses.forEach((c, i) => {
                if (c.kind === SK.DefaultClause) {
                    defIdx = i;
                    return;
                }
                const next = [];
                for (const o of cur) {
                    for (const r of this.ev(c.expression, o.s, e2)) {
                        if (r.c) {
                            out.push(r);
                            continue;
                        }
                        const t = this.truth(r.s, this.strictEq(r.s, d, r.v));
                        if (t.t) runFrom(t.t, i);
                        if (t.f) next.push({ s: t.f });
                    }
                }
                cur = next;
            });
            for (const o of cur) {
                if (defIdx >= 0) runFrom(o.s, defIdx);
                else out.push({ s: o.s });
            }
            return this.dropScope(this.compact(out), sc);
        });
    }
    tryStmt(n, st, env) {
        const before = n.catchClause ? st.clone() : null;
        let outs = this.exec(n.tryBlock, st, env);
        if (n.catchClause) {
            const res = [];
            const handlers = [];
            let sawThrow = false;
            for (const o of outs) {
                if (o.c === 'throw') {
                    handlers.push(o);
                    sawThrow = true;
                } else res.push(o);
            }
            if (!sawThrow || this.cfg.implicitThrow !== false) {
                if (!(this.cfg.implicitThrow === false)) handlers.push({ s: before, v: Sym(`caught@${n.pos}`, { nonnull: true }), implicit: true });
            }
            for (const h of handlers) {
                const sc = this.newScope(h.s, env.scope, { local: true });
                const e2 = { ...env, scope: sc };
                this.event(h.s, { t: 'catch', v: h.v, node: n.catchClause, implicit: h.implicit });
                let b = [{ s: h.s }];
                if (n.catchClause.variableDeclaration) b = this.bindPattern(n.catchClause.variableDeclaration.name, h.v, h.s, e2, sc, true);
                res.push(...this.dropScope(this.bind(b, (s) => this.exec(n.catchClause.block, s, e2)), sc));
            }
            outs = this.compact(res);
        }
        if (n.finallyBlock) {
            const res = [];
            for (const o of outs) {
                for (const f of this.exec(n.finallyBlock, o.s, env)) {
                    if (f.c) res.push(f);
                    else res.push({ ...o, s: f.s });
                }
            }
            outs = res;
        }
        return outs;
    }
    compactStates(list) {
        if (list.length <= this.soft) return list;
        return this.compact(list.map((s) => ({ s }))).map((o) => o.s);
    }

    // ------------------------------------------------------------ conditions
    cond(n, st, env) {
        // -> {t:[St], f:[St], thrown:[]}
        while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression;
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken.kind;
            if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken) {
                const a = this.cond(n.left, st, env);
                const and = op === SK.AmpersandAmpersandToken;
                const res = and ? { t: [], f: [...a.f], thrown: [...a.thrown] } : { t: [...a.t], f: [], thrown: [...a.thrown] };
                for (const s of and ? a.t : a.f) {
                    const b = this.cond(n.right, s, env);
                    res.t.push(...b.t);
                    res.f.push(...b.f);
                    res.thrown.push(...b.thrown);
                }
                return res;
            }
        }
        if (ts.isPrefixUnaryExpression(n) && n.operator === SK.ExclamationToken) {
            const a = this.cond(n.operand, st, env);
            return { t: a.f, f: a.t, thrown: a.thrown };
        }
        const res = { t: [], f: [], thrown: [] };
        for (const o of this.ev(n, st, env)) {
            if (o.c) {
                res.thrown.push(o);
                continue;
            }
            const r = this.truth(o.s, o.v);
            if (r.t) res.t.push(r.t);
            if (r.f) res.f.push(r.f);
        }
        return res;
    }

    // ------------------------------------------------------------ expressions
    evs(nodes, st, env) {
        // evaluates argument lists; -> outcomes with v = array of values (spread elements flattened when known)
        let outs = [{ s: st, v: [] }];
        for (const a of nodes) {
            outs = this.bind(outs, (s, acc) => {
                if (ts.isSpreadElement(a)) {
                    return this.bind(this.ev(a.expression, s, env), (s2, v) => {
                        const list = this.norm(s2, v);
                        const els = this.elements(s2, list) || (list.k === 'arr' ? (this.getCell(s2, list.id) || {}).elems : null);
                        if (els) return [{ s: s2, v: [...acc, ...els] }];
                        return [{ s: s2, v: [...acc, { ...Sym(`...${keyOf(v)}`), spreadOf: v }] }];
                    });
                }
                return this.bind(this.ev(a, s, env), (s2, v) => [{ s: s2, v: [...acc, v] }]);
            });
            outs = this.compactArgs(outs);
        }
        return outs;
    }
    compactArgs(outs) {
        return outs;
    }
    ev(n, st, env) {
        if (++this.stats.steps > this.maxSteps) throw new Budget('step budget exceeded');
        switch (n.kind) {
            case SK.ParenthesizedExpression:
            case SK.AsExpression:
            case SK.NonNullExpression:
            case SK.SatisfiesExpression:
            case SK.TypeAssertionExpression:
            case SK.ExpressionWithTypeArguments:
                return this.ev(n.expression, st, env);
            case SK.Identifier: {
                const r = this.lookup(n.text, st, env);
                if (r.outs) return r.outs;
                return [{ s: st, v: r.v }];
            }
            case SK.StringLiteral:
            case SK.NoSubstitutionTemplateLiteral:
                return [{ s: st, v: Lit(n.text) }];
            case SK.NumericLiteral:
                return [{ s: st, v: Lit(Number(n.text)) }];
            case SK.BigIntLiteral:
                return [{ s: st, v: Sym('bigint:' + n.text, { nonnull: true }) }];
            case SK.TrueKeyword:
                return [{ s: st, v: TRUE }];
            case SK.FalseKeyword:
                return [{ s: st, v: FALSE }];
            case SK.NullKeyword:
                return [{ s: st, v: NULL }];
            case SK.ThisKeyword:
                return [{ s: st, v: env.thisv || Sym('this?', { nonnull: true }) }];
            case SK.RegularExpressionLiteral:
                return [{ s: st, v: { k: 'regex', text: n.text, node: n } }];
            case SK.TemplateExpression: {
                let outs = [{ s: st, v: [Lit(n.head.text)] }];
                for (const sp of n.templateSpans) outs = this.bind(outs, (s, acc) => this.bind(this.ev(sp.expression, s, env), (s2, v) => [{ s: s2, v: [...acc, this.norm(s2, v), Lit(sp.literal.text)] }]));
                return this.bind(outs, (s, parts) => [{ s, v: this.concat(parts) }]);
            }
            case SK.ArrowFunction:
            case SK.FunctionExpression:
                return [{ s: st, v: this.closure(n, st, env) }];
            case SK.ClassExpression:
                return [{ s: st, v: { k: 'class', node: n, scope: env.scope, mod: env.mod } }];
            case SK.ObjectLiteralExpression:
                return this.objLit(n, st, env);
            case SK.ArrayLiteralExpression:
                return this.bind(this.evs(n.elements.filter((e) => e.kind !== SK.OmittedExpression), st, env), (s, vs) => [{ s, v: this.mkArr(s, vs) }]);
            case SK.PropertyAccessExpression: {
                return this.bind(this.ev(n.expression, st, env), (s, o) => this.getMember(s, this.norm(s, o), n.name.text, n, env, !!n.questionDotToken || this.inOptionalChain(n)));
            }
            case SK.ElementAccessExpression:
                return this.bind(this.ev(n.expression, st, env), (s, o) =>
                    this.bind(this.ev(n.argumentExpression, s, env), (s2, i) => this.getIndex(s2, this.norm(s2, o), this.norm(s2, i), n, env)),
                );
            case SK.CallExpression:
                return this.callExpr(n, st, env);
            case SK.NewExpression:
                return this.newExpr(n, st, env);
            case SK.ConditionalExpression: {
                const r = this.cond(n.condition, st, env);
                const out = [...r.thrown];
                for (const s of this.compactStates(r.t)) out.push(...this.ev(n.whenTrue, s, env));
                for (const s of this.compactStates(r.f)) out.push(...this.ev(n.whenFalse, s, env));
                return this.joined(out);
            }
            case SK.BinaryExpression:
                return this.binary(n, st, env);
            case SK.PrefixUnaryExpression: {
                if (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) return this.incdec(n, st, env);
                return this.bind(this.ev(n.operand, st, env), (s, v) => {
                    v = this.norm(s, v);
                    if (n.operator === SK.ExclamationToken) return [{ s, v: this.isObj(v) ? FALSE : not(v) }];
                    if (v.k === 'lit') return [{ s, v: Lit(n.operator === SK.MinusToken ? -v.v : n.operator === SK.PlusToken ? +v.v : ~v.v) }];
                    return [{ s, v: Sym(`(${ts.tokenToString(n.operator)}${keyOf(v)})`) }];
                });
            }
            case SK.PostfixUnaryExpression:
                return this.incdec(n, st, env);
            case SK.TypeOfExpression:
                return this.bind(this.ev(n.expression, st, env), (s, v) => [{ s, v: this.typeOf(this.norm(s, v)) }]);
            case SK.VoidExpression:
                return this.bind(this.ev(n.expression, st, env), (s) => [{ s, v: U }]);
            case SK.DeleteExpression: {
                const t = n.expression;
                return this.bind(this.ev(t.expression, st, env), (s, o) => {
                    if (ts.isPropertyAccessExpression(t)) return this.delMember(s, o, Lit(t.name.text), n);
                    return this.bind(this.ev(t.argumentExpression, s, env), (s2, k) => this.delMember(s2, o, k, n));
                });
            }
            case SK.AwaitExpression:
                return this.bind(this.ev(n.expression, st, env), (s, v) => this.awaitVal(s, v, n));
            case SK.YieldExpression:
                return n.expression ? this.bind(this.ev(n.expression, st, env), (s) => [{ s, v: Sym('yield') }]) : [{ s: st, v: Sym('yield') }];
            case SK.SpreadElement:
                return this.ev(n.expression, st, env);
            case SK.SuperKeyword:
                return [{ s: st, v: Sym('super', { nonnull: true }) }];
            case SK.MetaProperty:
                return [{ s: st, v: Sym('import.meta', { nonnull: true }) }];
            case SK.TaggedTemplateExpression:
                return [{ s: st, v: Sym(`tagged@${n.pos}`) }];
            case SK.ImportKeyword:
                return [{ s: st, v: Sym('global:import', { nonnull: true }) }];
            case SK.OmittedExpression:
                return [{ s: st, v: U }];
            default:
                this.stats.unknownSyntax.add(SK[n.kind] + ' ' + this.loc(n));
                return [{ s: st, v: Sym(`expr@${n.pos}`) }];
        }
    }
    inOptionalChain(n) {
        return (n.flags & ts.NodeFlags.OptionalChain) !== 0;
    }
    concat(parts) {
        let acc = [];
        for (const p of parts) {
            if (p.k === 'sym' && p.parts) acc.push(...p.parts);
            else acc.push(p);
        }
        const m = [];
        for (const p of acc) {
            const t = p.k === 'lit' ? Lit(String(p.v)) : p;
            const l = m[m.length - 1];
            if (l && l.k === 'lit' && t.k === 'lit') m[m.length - 1] = Lit(l.v + t.v);
            else if (t.k === 'lit' && t.v === '') continue;
            else m.push(t);
        }
        if (!m.length) return Lit('');
        if (m.length === 1 && m[0].k === 'lit') return m[0];
        const key = '`' + m.map((p) => (p.k === 'lit' ? p.v : '${' + keyOf(p) + '}')).join('') + '`';
        // text around a value nobody else has is itself such a value
        const x = m.some((p) => p.unique) ? { unique: true, ident: key } : {};
        return Sym(key, { parts: m, nonnull: m.some((p) => p.k === 'lit' && p.v), ...x });
    }
    typeOf(v) {
        switch (v.k) {
            case 'lit':
                return Lit(v.v === null ? 'object' : typeof v.v);
            case 'fn':
            case 'native':
            case 'class':
                return Lit('function');
            case 'not':
                return Lit('boolean');
            case 'sym':
                if (v.parts) return Lit('string');
                if (v.isBool) return Lit('boolean');
                return Sym(`typeof(${v.key})`, { typeofOf: v.key, nonnull: true });
            default:
                return Lit('object');
        }
    }
    mkArr(st, elems) {
        return { k: 'arr', id: this.alloc(st, { t: 'arr', elems }) };
    }
    mkObj(st, entries, extra) {
        return { k: 'obj', id: this.alloc(st, { t: 'obj', props: new Map(entries), spreads: [], ...extra }) };
    }
    propName(node, st, env) {
        // -> outs with v = Lit|Sym key
        if (ts.isIdentifier(node) || ts.isStringLiteral(node) || ts.isNumericLiteral(node) || node.kind === SK.NoSubstitutionTemplateLiteral) return [{ s: st, v: Lit(node.text) }];
        if (ts.isComputedPropertyName(node)) return this.ev(node.expression, st, env);
        if (ts.isPrivateIdentifier(node)) return [{ s: st, v: Lit(node.text) }];
        return [{ s: st, v: Sym('prop?') }];
    }
    objLit(n, st, env) {
        const id = this.alloc(st, { t: 'obj', props: new Map(), spreads: [], node: n, modRel: env.mod && env.mod.rel });
        const self = { k: 'obj', id };
        let outs = [{ s: st }];
        const put = (s, k, v) => {
            const c = this.getCell(s, id);
            const props = new Map(c.props);
            const name = k.k === 'lit' ? String(k.v) : '[' + keyOf(k) + ']';
            props.delete(name);
            props.set(name, v);
            s.live.set(id, { ...c, props });
        };
        for (const p of n.properties) {
            outs = this.bind(outs, (s) => {
                if (ts.isPropertyAssignment(p))
                    return this.bind(this.propName(p.name, s, env), (s2, k) =>
                        this.bind(this.ev(p.initializer, s2, env), (s3, v) => {
                            put(s3, k, v);
                            return [{ s: s3 }];
                        }),
                    );
                if (ts.isShorthandPropertyAssignment(p)) {
                    const r = this.lookup(p.name.text, s, env);
                    return this.bind(r.outs || [{ s, v: r.v }], (s2, v) => {
                        put(s2, Lit(p.name.text), v);
                        return [{ s: s2 }];
                    });
                }
                if (ts.isMethodDeclaration(p))
                    return this.bind(this.propName(p.name, s, env), (s2, k) => {
                        const f = this.closure(p, s2, env);
                        put(s2, k, { ...f, boundThis: self });
                        return [{ s: s2 }];
                    });
                if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) {
                    return this.bind(this.propName(p.name, s, env), (s2, k) => {
                        const f = this.closure(p, s2, env);
                        const c = this.getCell(s2, id);
                        const acc = new Map(c.accessors || []);
                        const nm = keyOf(k);
                        acc.set(nm, { ...(acc.get(nm) || {}), [ts.isGetAccessor(p) ? 'get' : 'set']: f });
                        s2.live.set(id, { ...c, accessors: acc });
                        return [{ s: s2 }];
                    });
                }
                if (ts.isSpreadAssignment(p))
                    return this.bind(this.ev(p.expression, s, env), (s2, v) => {
                        this.spreadInto(s2, id, this.norm(s2, v));
                        return [{ s: s2 }];
                    });
                return [{ s }];
            });
            outs = this.compact(outs);
        }
        return this.bind(outs, (s) => [{ s, v: self }]);
    }
    spreadInto(s, id, v) {
        const c = this.getCell(s, id);
        if (v.k === 'lit' || v.k === 'not') return;
        if (v.k === 'obj') {
            const src = this.getCell(s, v.id);
            const props = new Map(c.props);
            const spreads = [...c.spreads];
            // opaque spreads of the source override earlier props of the target with the same name: keep order markers
            for (const sp of src.spreads) spreads.push({ v: sp.v, before: new Set(props.keys()) });
            for (const [k, x] of src.props) {
                props.delete(k);
                props.set(k, x);
            }
            s.live.set(id, { ...c, props, spreads });
            return;
        }
        // the declared properties of a component are all there is to spread
        if (v.k === 'props' && v.inst && !v.inst.def.propsOpaque && v.inst.def.props.size) {
            const props = new Map(c.props);
            let exact = true;
            for (const name of v.inst.def.props.keys()) {
                const outs = v.inst.readProp(name, s, this);
                if (outs.length !== 1 || outs[0].c || outs[0].s !== s) {
                    exact = false;
                    break;
                }
                props.delete(name);
                props.set(name, outs[0].v);
            }
            if (exact) {
                s.live.set(id, { ...c, props });
                return;
            }
        }
        s.live.set(id, { ...c, spreads: [...c.spreads, { v, before: new Set(c.props.keys()) }] });
    }
    delMember(s, o, k, n) {
        o = this.norm(s, o);
        this.event(s, { t: 'delete', key: keyOf(o), target: o, prop: k, node: n, args: [k] });
        if (o.k === 'obj')
            this.mapOp(s, o.id, (s2) => {
                const c = this.getCell(s2, o.id);
                const props = new Map(c.props);
                props.delete(k.k === 'lit' ? String(k.v) : '[' + keyOf(k) + ']');
                this.setCell(s2, o.id, { ...c, props });
            });
        return [{ s, v: TRUE }];
    }
    incdec(n, st, env) {
        const plus = n.operator === SK.PlusPlusToken;
        return this.bind(this.ev(n.operand, st, env), (s, v) => {
            v = this.norm(s, v);
            const nv = v.k === 'lit' ? Lit(plus ? Number(v.v) + 1 : Number(v.v) - 1) : this.arith(plus ? '+' : '-', v, Lit(1));
            return this.bind(this.assignTo(n.operand, nv, s, env, n), (s2) => [{ s: s2, v: ts.isPrefixUnaryExpression(n) ? nv : v }]);
        });
    }
    arith(op, a, b) {
        if (a.k === 'lit' && b.k === 'lit') {
            const x = a.v, y = b.v;
            try {
                switch (op) {
                    case '+':
                        return Lit(x + y);
                    case '-':
                        return Lit(x - y);
                    case '*':
                        return Lit(x * y);
                    case '/':
                        return Lit(x / y);
                    case '%':
                        return Lit(x % y);
                    case '**':
                        return Lit(x ** y);
                    case '|':
                        return Lit(x | y);
                    case '&':
                        return Lit(x & y);
                    case '^':
                        return Lit(x ^ y);
                    case '<<':
                        return Lit(x << y);
                    case '>>':
                        return Lit(x >> y);
                    case '>>>':
                        return Lit(x >>> y);
                }
            } catch {
                /* fall through */
            }
        }
        if (op === '+' && ((a.k === 'lit' && typeof a.v === 'string') || (b.k === 'lit' && typeof b.v === 'string') || a.parts || b.parts)) return this.concat([a, b]);
        return Sym(`(${keyOf(a)}${op}${keyOf(b)})`, { arith: { op, a, b } });
    }
    strictEq(st, a, b, loose) {
        a = this.norm(st, a);
        b = this.norm(st, b);
        if (a.k === 'lit' && b.k === 'lit') return Lit(loose ? a.v == b.v : a.v === b.v);
        if (a.k === 'lit') [a, b] = [b, a];
        if (b.k === 'lit') {
            if (a.atLeast && typeof b.v === 'number' && b.v < a.atLeast) return FALSE;
            if (loose && (b.v === null || b.v === undefined)) {
                if (a.k === 'sym') return a.nonnull ? FALSE : Sym(`(${a.key}==null)`, { nullOf: a.key });
                return FALSE;
            }
            if (this.isObj(a) && (b.v === null || b.v === undefined)) return FALSE;
            if (this.isObj(a) && a.k !== 'sym') return FALSE;
            if (a.k === 'not' && typeof b.v === 'boolean') return b.v ? a : not(a);
            if (a.k === 'not') return FALSE;
            return Sym(`(${keyOf(a)}===${keyOf(b)})`, { eq: { of: a, key: keyOf(a), lit: b.v, typeofKey: a.typeofOf, bool: a.isBool }, isBool: true });
        }
        const ka = keyOf(a), kb = keyOf(b);
        if (ka === kb) return TRUE;
        const distinct = (x) => ['obj', 'arr', 'ref', 'computed', 'map', 'fn', 'class', 'comp'].includes(x.k);
        if (distinct(a) && distinct(b)) return FALSE;
        return Sym(ka < kb ? `(${ka}===${kb})` : `(${kb}===${ka})`, { isBool: true, cmp: { a, b } });
    }
    compare(st, op, a, b) {
        a = this.norm(st, a);
        b = this.norm(st, b);
        if (a.k === 'lit' && b.k === 'lit') {
            switch (op) {
                case '<':
                    return Lit(a.v < b.v);
                case '>':
                    return Lit(a.v > b.v);
                case '<=':
                    return Lit(a.v <= b.v);
                case '>=':
                    return Lit(a.v >= b.v);
            }
        }
        // a length known to be at least n
        for (const [x, y, gt] of [[a, b, '>'], [b, a, '<']])
            if (x.atLeast && y.k === 'lit' && typeof y.v === 'number') {
                const [n, m] = [x.atLeast, y.v];
                if (op === gt && n > m) return TRUE;
                if (op === gt + '=' && n >= m) return TRUE;
                if (op[0] !== gt && op.length === 1 && n >= m) return FALSE;
                if (op[0] !== gt && op.length === 2 && n > m) return FALSE;
            }
        const lt = (x, y) => {
            // shift integer constants to one side: (x+1) < y etc. keep canonical only for simple forms
            return Sym(`(${keyOf(x)}<${keyOf(y)})`, { isBool: true, lt: { a: x, b: y } });
        };
        switch (op) {
            case '<':
                return lt(a, b);
            case '>':
                return lt(b, a);
            case '<=':
                return not(lt(b, a));
            case '>=':
                return not(lt(a, b));
        }
    }
    // while a component is set up, alternatives of one expression are joined so that set-up stays one path
    joined(outs) {
        if (!this.joinExpr) return this.compact(outs);
        const ok = outs.filter((o) => !o.c);
        return ok.length > 1 ? [this.mergeOuts(ok, true), ...outs.filter((o) => o.c)] : outs;
    }
    binary(n, st, env) {
        const k = n.operatorToken.kind;
        if (k === SK.EqualsToken) {
            if (ts.isObjectLiteralExpression(n.left) || ts.isArrayLiteralExpression(n.left)) {
                return this.bind(this.ev(n.right, st, env), (s, v) => this.destructAssign(n.left, v, s, env, n));
            }
            return this.bind(this.ev(n.right, st, env), (s, v) => this.assignTo(n.left, v, s, env, n));
        }
        if (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) {
            const out = [];
            for (const o of this.ev(n.left, st, env)) {
                if (o.c) {
                    out.push(o);
                    continue;
                }
                const r = this.truth(o.s, o.v);
                const [stay, go] = k === SK.AmpersandAmpersandToken ? [r.f, r.t] : [r.t, r.f];
                if (stay) out.push({ s: stay, v: this.norm(stay, o.v) });
                if (go) out.push(...this.ev(n.right, go, env));
            }
            return this.joined(out);
        }
        if (k === SK.QuestionQuestionToken) {
            const out = [];
            for (const o of this.ev(n.left, st, env)) {
                if (o.c) {
                    out.push(o);
                    continue;
                }
                const r = this.nullish(o.s, this.norm(o.s, o.v));
                if (r.f) out.push({ s: r.f, v: o.v });
                if (r.t) out.push(...this.ev(n.right, r.t, env));
            }
            return this.joined(out);
        }
        if (k === SK.CommaToken) return this.bind(this.ev(n.left, st, env), (s) => this.ev(n.right, s, env));
        if (k >= SK.FirstCompoundAssignment && k <= SK.LastCompoundAssignment) {
            const opText = ts.tokenToString(k).slice(0, -1);
            return this.bind(this.ev(n.left, st, env), (s, cur) => {
                if (opText === '&&' || opText === '||' || opText === '??') {
                    const out = [];
                    const r = opText === '??' ? this.nullish(s, this.norm(s, cur)) : this.truth(s, cur);
                    const go = opText === '||' ? r.f : r.t;
                    const stay = opText === '||' ? r.t : r.f;
                    if (stay) out.push({ s: stay, v: cur });
                    if (go) out.push(...this.bind(this.ev(n.right, go, env), (s2, v) => this.assignTo(n.left, v, s2, env, n)));
                    return out;
                }
                return this.bind(this.ev(n.right, s, env), (s2, v) => this.assignTo(n.left, this.arith(opText, this.norm(s2, cur), this.norm(s2, v)), s2, env, n));
            });
        }
        return this.bind(this.ev(n.left, st, env), (s, a) =>
            this.bind(this.ev(n.right, s, env), (s2, b) => {
                a = this.norm(s2, a);
                b = this.norm(s2, b);
                switch (k) {
                    case SK.EqualsEqualsEqualsToken:
                        return [{ s: s2, v: this.strictEq(s2, a, b) }];
                    case SK.ExclamationEqualsEqualsToken:
                        return [{ s: s2, v: not(this.strictEq(s2, a, b)) }];
                    case SK.EqualsEqualsToken:
                        return [{ s: s2, v: this.strictEq(s2, a, b, true) }];
                    case SK.ExclamationEqualsToken:
                        return [{ s: s2, v: not(this.strictEq(s2, a, b, true)) }];
                    case SK.LessThanToken:
                    case SK.GreaterThanToken:
                    case SK.LessThanEqualsToken:
                    case SK.GreaterThanEqualsToken:
                        return [{ s: s2, v: this.compare(s2, ts.tokenToString(k), a, b) }];
                    case SK.InstanceOfKeyword:
                        if (a.k === 'lit') return [{ s: s2, v: FALSE }];
                        if (b.k === 'sym' && /^global:/.test(b.key)) {
                            const kind = { promise: 'Promise', arr: 'Array', map: a.kind }[a.k];
                            if (kind) return [{ s: s2, v: Lit(b.key === `global:${kind}` || b.key === 'global:Object') }];
                        }
                        if (a.k === 'obj' && b.k === 'sym' && b.key === 'global:Error' && (this.getCell(s2, a.id) || {}).error) return [{ s: s2, v: TRUE }];
                        if (a.k === 'obj' && b.k === 'class') {
                            const c = this.getCell(s2, a.id);
                            if (c && c.cls) {
                                for (let x = c.cls; x; x = this.superOf(x)) if (x.node === b.node) return [{ s: s2, v: TRUE }];
                                return [{ s: s2, v: FALSE }];
                            }
                        }
                        return [{ s: s2, v: Sym(`(${keyOf(a)} instanceof ${keyOf(b)})`, { isBool: true, instOf: keyOf(a) }) }];
                    case SK.InKeyword:
                        if (b.k === 'obj' && a.k === 'lit') {
                            const c = this.getCell(s2, b.id) || { props: new Map(), spreads: [], open: true };
                            if (c.props.has(String(a.v))) return [{ s: s2, v: TRUE }];
                            if (!c.spreads.length && !c.open) return [{ s: s2, v: FALSE }];
                        }
                        return [{ s: s2, v: Sym(`(${keyOf(a)} in ${keyOf(b)})`, { isBool: true }) }];
                    default:
                        return [{ s: s2, v: this.arith(ts.tokenToString(k), a, b) }];
                }
            }),
        );
    }

    // ------------------------------------------------------------ assignment
    assignTo(target, v, st, env, node) {
        while (ts.isParenthesizedExpression(target) || ts.isAsExpression(target) || ts.isNonNullExpression(target)) target = target.expression;
        if (ts.isIdentifier(target)) return this.assignVar(st, env, target.text, v, node);
        if (ts.isPropertyAccessExpression(target)) return this.bind(this.ev(target.expression, st, env), (s, o) => this.setMember(s, this.norm(s, o), Lit(target.name.text), v, node, env));
        if (ts.isElementAccessExpression(target))
            return this.bind(this.ev(target.expression, st, env), (s, o) => this.bind(this.ev(target.argumentExpression, s, env), (s2, k) => this.setMember(s2, this.norm(s2, o), this.norm(s2, k), v, node, env)));
        if (ts.isObjectLiteralExpression(target) || ts.isArrayLiteralExpression(target)) return this.destructAssign(target, v, st, env, node);
        return [{ s: st, v }];
    }
    destructAssign(pat, v, st, env, node) {
        let outs = [{ s: st }];
        if (ts.isArrayLiteralExpression(pat)) {
            pat.elements.forEach((e, i) => {
                if (e.kind === SK.OmittedExpression) return;
                outs = this.bind(outs, (s) => {
                    let t = e, def = null;
                    if (ts.isSpreadElement(e)) return this.assignTo(e.expression, Sym(`${keyOf(v)}[${i}..]`), s, env, node);
                    if (ts.isBinaryExpression(e)) {
                        t = e.left;
                        def = e.right;
                    }
                    return this.bind(this.getIndex(s, this.norm(s, v), Lit(i), node, env), (s2, x) => this.bind(this.withDefault(s2, x, def, env), (s3, y) => this.assignTo(t, y, s3, env, node)));
                });
            });
        } else {
            for (const p of pat.properties) {
                outs = this.bind(outs, (s) => {
                    if (ts.isShorthandPropertyAssignment(p)) return this.bind(this.getMember(s, this.norm(s, v), p.name.text, node, env), (s2, x) => this.bind(this.withDefault(s2, x, p.objectAssignmentInitializer, env), (s3, y) => this.assignVar(s3, env, p.name.text, y, node)));
                    if (ts.isPropertyAssignment(p)) {
                        let t = p.initializer, def = null;
                        if (ts.isBinaryExpression(t) && t.operatorToken.kind === SK.EqualsToken) {
                            def = t.right;
                            t = t.left;
                        }
                        return this.bind(this.getMember(s, this.norm(s, v), p.name.text, node, env), (s2, x) => this.bind(this.withDefault(s2, x, def, env), (s3, y) => this.assignTo(t, y, s3, env, node)));
                    }
                    return [{ s }];
                });
            }
        }
        return this.bind(outs, (s) => [{ s, v }]);
    }
    withDefault(st, v, def, env) {
        if (!def) return [{ s: st, v }];
        if (v.k === 'lit' && v.v === undefined) return this.ev(def, st, env);
        if (v.k === 'sym' && !v.nonnull && st.facts.get(v.key) !== true) {
            // do not fork for defaults; a falsy literal default keeps the truth value of the opaque value
            return this.bind(this.ev(def, st, env), (s, d) => {
                if (d.k === 'lit' && !d.v) return [{ s, v }];
                return [{ s, v: Sym(`(${v.key}??=${keyOf(d)})`, { defaultOf: v, dflt: d, nonnull: this.isObj(d) || undefined }) }];
            });
        }
        return [{ s: st, v }];
    }
    bindPattern(p, v, st, env, scope, isConst) {
        if (ts.isIdentifier(p)) {
            this.declare(st, scope, p.text, v, isConst || !this.reassigned(p));
            return [{ s: st }];
        }
        let outs = [{ s: st }];
        if (ts.isObjectBindingPattern(p)) {
            const taken = [];
            for (const e of p.elements) {
                outs = this.bind(outs, (s) => {
                    if (e.dotDotDotToken) {
                        const nv = this.norm(s, v);
                        let rest;
                        if (nv.k === 'obj') {
                            const c = this.getCell(s, nv.id);
                            rest = { k: 'obj', id: this.alloc(s, { ...c, props: new Map([...c.props].filter(([k]) => !taken.includes(k))), name: undefined }) };
                        } else rest = Sym(`rest(${keyOf(nv)};${taken.join(',')})`, { nonnull: true, restOf: nv, omit: [...taken] });
                        return this.bindPattern(e.name, rest, s, env, scope, isConst);
                    }
                    const nameNode = e.propertyName || e.name;
                    const get = (s2, key) => (key.k === 'lit' ? this.getMember(s2, this.norm(s2, v), String(key.v), e, env) : this.getIndex(s2, this.norm(s2, v), key, e, env));
                    return this.bind(this.propName(nameNode, s, env), (s2, key) => {
                        if (key.k === 'lit') taken.push(String(key.v));
                        else taken.push(`[${keyOf(key)}]`);
                        return this.bind(get(s2, key), (s3, x) => this.bind(this.withDefault(s3, x, e.initializer, env), (s4, y) => this.bindPattern(e.name, y, s4, env, scope, isConst)));
                    });
                });
            }
            return outs;
        }
        p.elements.forEach((e, i) => {
            if (e.kind === SK.OmittedExpression) return;
            outs = this.bind(outs, (s) => {
                const nv = this.norm(s, v);
                if (e.dotDotDotToken) {
                    const els = this.elements(s, nv);
                    return this.bindPattern(e.name, els ? this.mkArr(s, els.slice(i)) : Sym(`${keyOf(nv)}[${i}..]`, { nonnull: true, elem: nv.elem, sliceOf: nv }), s, env, scope, isConst);
                }
                return this.bind(this.getIndex(s, nv, Lit(i), e, env), (s2, x) => this.bind(this.withDefault(s2, x, e.initializer, env), (s3, y) => this.bindPattern(e.name, y, s3, env, scope, isConst)));
            });
        });
        return outs;
    }
    setMember(st, o, key, v, node, env) {
        const name = key.k === 'lit' ? String(key.v) : null;
        switch (o.k) {
            case 'ref':
                if (name === 'value') {
                    const c = this.getCell(st, o.id);
                    this.event(st, { t: 'write', cell: o.id, name: c.name || this.names.get(o.id), v, old: c.value, node, ref: o });
                    this.setCell(st, o.id, { ...c, value: v });
                    return [{ s: st, v }];
                }
                break;
            case 'computed':
                if (name === 'value') {
                    if (o.set) return this.bind(this.invoke(o.set, U, [v], st, node), (s) => [{ s, v }]);
                    this.event(st, { t: 'write', cell: o.id, name: this.names.get(o.id), v, node, ref: o, readonly: true });
                    return [{ s: st, v }];
                }
                break;
            case 'propref':
                if (name === 'value') {
                    this.event(st, { t: 'propwrite', name: o.name, inst: o.props.inst, v, node });
                    return [{ s: st, v }];
                }
                break;
            case 'props':
                this.event(st, { t: 'propwrite', name, inst: o.inst, v, node });
                return [{ s: st, v }];
            case 'obj': {
                const c = this.getCell(st, o.id);
                if (c) {
                    if (c.accessors && name && c.accessors.get(JSON.stringify(name))?.set) return this.bind(this.invoke({ ...c.accessors.get(JSON.stringify(name)).set }, o, [v], st, node), (s) => [{ s, v }]);
                    if (c.cls && name) {
                        const acc = this.classMember(c.cls, name, 'set');
                        if (acc) return this.bind(this.invoke({ k: 'fn', node: acc.node, scope: acc.cls.scope, mod: acc.cls.mod }, o, [v], st, node), (s) => [{ s, v }]);
                    }
                    this.event(st, { t: 'set', target: o, key: keyOf(o), prop: key, v, node, args: [key] });
                    this.mapOp(st, o.id, (s) => {
                        const c2 = this.getCell(s, o.id);
                        this.setCell(s, o.id, { ...c2, props: new Map(c2.props).set(name !== null ? name : '[' + keyOf(key) + ']', v) });
                    });
                    return [{ s: st, v }];
                }
                break;
            }
            case 'arr': {
                const c = this.getCell(st, o.id);
                this.event(st, { t: 'set', target: o, key: keyOf(o), prop: key, v, node, args: [key] });
                if (c && c.elems && key.k === 'lit' && typeof key.v === 'number') {
                    const elems = c.elems.slice();
                    elems[key.v] = v;
                    for (let i = 0; i < elems.length; i++) if (!elems[i]) elems[i] = U;
                    this.setCell(st, o.id, { ...c, elems, mutated: true });
                } else if (c) this.setCell(st, o.id, { ...c, elems: null, key: `arr#${o.id}`, mutated: true });
                return [{ s: st, v }];
            }
            case 'class':
            case 'fn':
            case 'native':
            case 'comp':
                this.event(st, { t: 'set', target: o, key: keyOf(o), prop: key, v, node, args: [key] });
                return [{ s: st, v }];
        }
        // opaque object: remember the written property so it can be read back
        this.event(st, { t: 'set', target: o, key: keyOf(o), prop: key, v, node, args: [key] });
        if (o.k === 'sym' && name !== null) {
            const id = 'sp:' + o.key;
            const c = st.live.get(id) || { t: 'symprops', props: new Map() };
            const props = new Map(c.props);
            props.set(name, v);
            st.live.set(id, { ...c, props });
            st.ver++;
        }
        return [{ s: st, v }];
    }

    // ------------------------------------------------------------ members
    readRef(st, o, node) {
        if (this.cfg.onRead) this.cfg.onRead(o, st);
        if (o.k === 'ref') {
            const c = this.getCell(st, o.id);
            if (!c) return [{ s: st, v: Sym(`cell#${o.id}`) }];
            return [{ s: st, v: c.value }];
        }
        if (o.k === 'propref') return this.getMember(st, o.props, o.name, node, {});
        if (o.k === 'computed') {
            if (this.cfg.opaqueComputed && this.cfg.opaqueComputed(o)) return [{ s: st, v: Sym(`computed:${this.names.get(o.id) || ''}#${o.id}@v${st.ver}`, { computedId: o.id }) }];
            const key = `computed:${this.names.get(o.id) || ''}#${o.id}@v${st.ver}.${st.epoch}`;
            // a computed value already known to be opaque in this version keeps its symbol
            if (st.facts.has(key) || st.facts.has('=' + key)) return [{ s: st, v: Sym(key, { computedId: o.id }) }];
            if (this.stack.filter((f) => f.node === o.get.node).length > 1) return [{ s: st, v: Sym(key, { computedId: o.id }) }];
            const probe = st.clone();
            let outs;
            outs = this.invoke(o.get, U, [], probe, node);
            outs = this.compact(outs.filter((x) => !x.c || x.c === 'throw'), true);
            const ok = outs.filter((x) => !x.c);
            if (ok.length > (this.cfg.maxComputed || 6) || !ok.length) return [{ s: st, v: Sym(key, { computedId: o.id }) }];
            for (const x of ok) {
                x.s.ver = st.ver; // getters are pure by contract
            }
            return ok;
        }
        return [{ s: st, v: Sym(`read(${keyOf(o)})`) }];
    }
    getIndex(st, o, k, node, env) {
        if (k.k === 'lit') {
            if (o.k === 'arr' && typeof k.v === 'number') {
                const c = this.getCell(st, o.id);
                if (c && c.elems && !c.elems.some((e) => e.spreadOf)) return [{ s: st, v: c.elems[k.v] || U }];
                return [{ s: st, v: c && c.elem ? c.elem : Sym(`${keyOf(o)}[${k.v}]`, { elemOf: o }) }];
            }
            return this.getMember(st, o, String(k.v), node, env);
        }
        if (o.k === 'arr') {
            const els = this.elements(st, o);
            if (els && els.length && els.length <= 4 && this.cfg.forkIndex) return els.map((e, i) => ({ s: i ? st.clone() : st, v: e }));
        }
        if (o.k === 'obj') {
            const c = this.getCell(st, o.id);
            const dyn = c && c.props.get('[' + keyOf(k) + ']');
            if (dyn) return [{ s: st, v: dyn }];
            if (c && this.cfg.forkDynamic && c.props.size && c.props.size <= 24 && !c.spreads.length) {
                // dynamic lookup in a literal table: one branch per entry plus a miss
                const out = [];
                for (const [n, v] of c.props) {
                    const s = st.clone();
                    const r = this.truth(s, this.strictEq(s, k, Lit(n)));
                    if (r.t) out.push({ s: r.t, v });
                }
                const miss = st;
                for (const n of c.props.keys()) this.assumeIf(miss, this.strictEq(miss, k, Lit(n)), false);
                out.push({ s: miss, v: U });
                return out;
            }
        }
        return [{ s: st, v: Sym(`${keyOf(o)}[${keyOf(k)}]`, { elemOf: o, index: k, container: o }) }];
    }
    assumeIf(st, v, b) {
        if (v.k === 'not') return this.assumeIf(st, v.v, !b);
        if (v.k === 'sym') this.assume(st, v, b);
    }
    getMember(st, o, name, node, env) {
        if (o.k === 'sym' && o.key === 'global:Number' && typeof Number[name] === 'number') return [{ s: st, v: Lit(Number[name]) }];
        switch (o.k) {
            case 'lit':
                if (o.v === null || o.v === undefined) return [{ s: st, v: U }];
                if (typeof o.v === 'string' && name === 'length') return [{ s: st, v: Lit(o.v.length) }];
                if (typeof o.v === 'string' && /^\d+$/.test(name)) return [{ s: st, v: Lit(o.v[Number(name)]) }];
                return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
            case 'ref':
            case 'computed':
            case 'propref':
                if (name === 'value') return this.readRef(st, o, node);
                return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
            case 'torefs':
                return [{ s: st, v: { k: 'propref', props: o.props, name } }];
            case 'props':
                return o.inst.readProp(name, st, this);
            case 'ns': {
                const v = this.exportVal(o.mod, name);
                return [{ s: st, v: v === undefined ? U : v }];
            }
            case 'arr': {
                const c = this.getCell(st, o.id);
                if (name === 'length') return [{ s: st, v: c && c.elems && !c.elems.some((e) => e.spreadOf) ? Lit(c.elems.length) : Sym(`${keyOf(o)}.length${c && c.ver ? '@' + c.ver : ''}`, { atLeast: c && c.elems ? c.elems.filter((e) => !e.spreadOf).length : 0 }) }];
                return [{ s: st, v: { k: 'native', name: `Array#${name}`, recv: o, method: name } }];
            }
            case 'map':
                if (name === 'size') return [{ s: st, v: Sym(`map#${o.id}.size@${st.ver}`) }];
                return [{ s: st, v: { k: 'native', name: `Map#${name}`, recv: o, method: name } }];
            case 'promise':
                return [{ s: st, v: { k: 'native', name: `Promise#${name}`, recv: o, method: name } }];
            case 'obj': {
                const c = this.getCell(st, o.id);
                if (!c) return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
                if (c.props.has(name)) {
                    const v = c.props.get(name);
                    const over = c.spreads.filter((sp) => sp.before.has(name));
                    if (over.length) {
                        // a later opaque spread may override the known property
                        return [{ s: st, v: Sym(`over(${over.map((x) => keyOf(x.v)).join(',')}.${name}|${keyOf(v)})`, { over: over.map((x) => x.v), base: v, prop: name }) }];
                    }
                    return [{ s: st, v: c.reactive && (v.k === 'ref' || v.k === 'computed') ? v : v }];
                }
                if (c.accessors && c.accessors.get(JSON.stringify(name))?.get) return this.invoke(c.accessors.get(JSON.stringify(name)).get, o, [], st, node);
                if (c.cls) {
                    const m = this.classMember(c.cls, name, 'get');
                    if (m) {
                        if (ts.isGetAccessor(m.node)) return this.invoke({ k: 'fn', node: m.node, scope: m.cls.scope, mod: m.cls.mod }, o, [], st, node);
                        return [{ s: st, v: { k: 'fn', node: m.node, scope: m.cls.scope, mod: m.cls.mod, boundThis: o, key: `method:${m.cls.mod.rel}:${m.node.pos}(${keyOf(o)})` } }];
                    }
                }
                if (c.spreads.length) {
                    const sp = c.spreads[c.spreads.length - 1].v;
                    return [{ s: st, v: Sym(`${c.spreads.map((x) => keyOf(x.v)).join('|')}.${name}`, { from: sp, prop: name }) }];
                }
                if (c.open || c.cls) return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
                if (['hasOwnProperty', 'toString', 'valueOf'].includes(name)) return [{ s: st, v: Sym(`${keyOf(o)}.${name}`, { nonnull: true }) }];
                return [{ s: st, v: U }];
            }
            case 'class': {
                const m = this.classStatic(o, name);
                if (m) {
                    if (ts.isMethodDeclaration(m.node)) return [{ s: st, v: { k: 'fn', node: m.node, scope: m.cls.scope, mod: m.cls.mod, boundThis: o, key: `static:${m.cls.mod.rel}:${m.node.pos}` } }];
                    if (ts.isGetAccessor(m.node)) return this.invoke({ k: 'fn', node: m.node, scope: m.cls.scope, mod: m.cls.mod }, o, [], st, node);
                    if (m.node.initializer) {
                        const key = `static:${m.cls.mod.path}:${m.node.pos}`;
                        if (!this.modVals.has(key)) this.modVals.set(key, this.rootEval((s) => this.ev(m.node.initializer, s, { scope: m.cls.scope, mod: m.cls.mod })));
                        return [{ s: st, v: this.modVals.get(key) }];
                    }
                }
                return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
            }
            case 'fn':
            case 'native':
                if (['call', 'apply', 'bind'].includes(name)) return [{ s: st, v: { k: 'native', name: `Function#${name}`, recv: o, method: name } }];
                return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
            case 'regex':
                return [{ s: st, v: { k: 'native', name: `RegExp#${name}`, recv: o, method: name } }];
            case 'sym': {
                if (name === 'length' && o.lenOf) return this.getMember(st, o.lenOf, name, node, env);
                if (name === 'length' && o.len) return [{ s: st, v: o.len }];
                const sp = st.live.get('sp:' + o.key);
                if (sp && sp.props.has(name)) return [{ s: st, v: sp.props.get(name) }];
                if (o.key.startsWith('global:') && GLOBAL_MEMBERS.has(o.key.slice(7))) return [{ s: st, v: Sym(`${o.key}.${name}`, { nonnull: !(['localStorage', 'sessionStorage'].includes(name)) && o.key !== 'global:window' && o.key !== 'global:document' ? true : undefined }) }];
                if (o.phi && o.phi.every((x) => x.k === 'obj')) {
                    // member of a merged object: join of the members
                    let outs = null, val = null;
                    for (const x of o.phi) {
                        const r = this.getMember(st, x, name, node, env);
                        if (r.length !== 1 || r[0].c || r[0].s !== st) {
                            val = null;
                            break;
                        }
                        val = val ? this.joinVal(val, r[0].v) : r[0].v;
                    }
                    if (val) return [{ s: st, v: val }];
                }
                if (this.cfg.symMember) {
                    const r = this.cfg.symMember(o, name, st, this);
                    if (r) return r;
                }
                return [{ s: st, v: Sym(`${o.key}.${name}`, { memberOf: o, prop: name }) }];
            }
            default:
                return [{ s: st, v: Sym(`${keyOf(o)}.${name}`) }];
        }
    }
    superOf(cls) {
        const h = (cls.node.heritageClauses || []).find((x) => x.token === SK.ExtendsKeyword);
        if (!h) return null;
        const e = h.types[0].expression;
        if (!ts.isIdentifier(e)) return null;
        const v = this.modVar(cls.mod, e.text);
        return v && v.k === 'class' ? v : null;
    }
    isStatic(m) {
        return m.modifiers && m.modifiers.some((x) => x.kind === SK.StaticKeyword);
    }
    classMember(cls, name, kind) {
        for (let c = cls; c; c = this.superOf(c)) {
            for (const m of c.node.members) {
                if (this.isStatic(m) || !m.name || m.name.text !== name) continue;
                if (kind === 'set' ? ts.isSetAccessor(m) : ts.isMethodDeclaration(m) || ts.isGetAccessor(m)) return { node: m, cls: c };
            }
        }
        return null;
    }
    classStatic(cls, name) {
        for (let c = cls; c; c = this.superOf(c)) for (const m of c.node.members) if (this.isStatic(m) && m.name && m.name.text === name) return { node: m, cls: c };
        return null;
    }

    // ------------------------------------------------------------ calls
    callExpr(n, st, env) {
        this.stats.callSites.add(n);
        let callee = n.expression;
        while (ts.isParenthesizedExpression(callee) || ts.isNonNullExpression(callee) || ts.isAsExpression(callee)) callee = callee.expression;
        const finish = (s, f, thisv, recv, name) =>
            this.bind(this.evs(n.arguments, s, env), (s2, args) => {
                f = this.norm(s2, f);
                if (n.questionDotToken || (ts.isPropertyAccessExpression(callee) && callee.questionDotToken)) {
                    if (f.k === 'lit') return [{ s: s2, v: U }];
                }
                return this.invoke(f, thisv, args, s2, n, { recv, name, env });
            });
        if (callee.kind === SK.SuperKeyword) {
            return this.bind(this.evs(n.arguments, st, env), (s, args) => {
                const sup = env.cls && this.superOf(env.cls);
                if (sup) return this.construct(sup, env.thisv, args, s, n);
                return [{ s, v: U }];
            });
        }
        if (ts.isPropertyAccessExpression(callee)) {
            return this.bind(this.ev(callee.expression, st, env), (s, o) => {
                o = this.norm(s, o);
                const name = callee.name.text;
                if (callee.questionDotToken && o.k === 'lit' && (o.v === null || o.v === undefined)) return [{ s, v: U }];
                if (callee.expression.kind === SK.SuperKeyword && env.cls) {
                    const sup = this.superOf(env.cls);
                    const m = sup && this.classMember(sup, name, 'get');
                    if (m) return finish(s, { k: 'fn', node: m.node, scope: m.cls.scope, mod: m.cls.mod, boundThis: env.thisv }, env.thisv, o, name);
                }
                return this.bind(this.getMember(s, o, name, callee, env), (s2, f) => finish(s2, f, o, o, name));
            });
        }
        if (ts.isElementAccessExpression(callee)) {
            return this.bind(this.ev(callee.expression, st, env), (s, o) =>
                this.bind(this.ev(callee.argumentExpression, s, env), (s2, k) => this.bind(this.getIndex(s2, this.norm(s2, o), this.norm(s2, k), callee, env), (s3, f) => finish(s3, f, o, o, k.k === 'lit' ? String(k.v) : null))),
            );
        }
        return this.bind(this.ev(callee, st, env), (s, f) => finish(s, f, U, null, null));
    }
    invoke(f, thisv, args, st, node, info = {}) {
        const { recv, name } = info;
        if (f.k === 'sym' && f.phi && f.phi.every((x) => x.k === 'fn' || x.k === 'native' || (x.k === 'lit' && !x.v))) {
            const out = [];
            f.phi.forEach((x, i) => {
                const s = i === f.phi.length - 1 ? st : st.clone();
                if (x.k !== 'lit') out.push(...this.invoke(x, thisv, args, s, node, info));
            });
            return out;
        }
        if (f.k === 'fn') return this.callFn(f, f.boundThis || f.thisv || thisv, args, st, node);
        if (f.k === 'native' && f.impl) return f.impl(this, st, args, node, thisv);
        if (f.k === 'native') {
            const m = this.models.get(f.name);
            if (m) {
                const r = m(this, st, args, node, { recv: f.recv || recv, name: f.method || name, thisv, env: info.env });
                if (r) return r;
            }
            return this.opaqueCall(f, args, st, node, { ...info, recv: f.recv || recv, name: f.method || name });
        }
        if (f.k === 'comp' || f.k === 'class') return this.opaqueCall(f, args, st, node, info);
        if (f.k === 'sym' && f.wraps) return this.invoke(f.wraps, thisv, args, st, node, info);
        if (f.k === 'sym' && f.defaultOf && f.dflt && f.dflt.k === 'fn') {
            const s2 = st.clone();
            return [...this.invoke(f.defaultOf, thisv, args, st, node, info), ...this.invoke(f.dflt, thisv, args, s2, node, info)];
        }
        const mk = f.k === 'sym' ? f.key : null;
        if (mk) {
            const m = this.models.get(mk);
            if (m) {
                const r = m(this, st, args, node, { recv, name, thisv, env: info.env });
                if (r) return r;
            }
        }
        if (name) {
            const gm = this.models.get('#' + name);
            if (gm) {
                const r = gm(this, st, args, node, { recv, name, thisv, env: info.env });
                if (r) return r;
            }
        }
        return this.opaqueCall(f, args, st, node, info);
    }
    argKeys(args) {
        return args.map(keyOf).join(',');
    }
    opaqueCall(f, args, st, node, info = {}) {
        const { recv, name } = info;
        const fk = f.k === 'sym' && f.key.startsWith('import:') ? f.key : name && recv ? `${keyOf(recv)}.${name}` : keyOf(f);
        this.stats.opaque.add(fk.length > 80 ? fk.slice(0, 80) : fk);
        this.event(st, { t: 'call', key: fk, f, recv, name, args, node });
        if (this.cfg.onOpaque) {
            const r = this.cfg.onOpaque({ f, fk, recv, name, args, node }, st, this);
            if (r) return r;
        }
        for (const a of args) if (a.k === 'fn') this.event(st, { t: 'escape', fn: a, key: fk, node, args: [a] });
        return [{ s: st, v: Sym(`${fk}(${this.argKeys(args)})`, { call: { fk, name, recv, args, f } }) }];
    }
    callFn(f, thisv, args, st, node) {
        const fnode = f.node;
        if (this.cfg.intercept) {
            const r = this.cfg.intercept(f, thisv, args, st, node, this);
            if (r) return r;
        }
        if (!fnode.body) return [{ s: st, v: Sym(`nobody:${keyOf(f)}`) }];
        const rec = this.stack.filter((x) => x.node === fnode).length;
        if (rec >= (this.cfg.maxRec || 2) || this.stack.length > this.maxDepth) {
            this.stats.recursion.add(this.fnName(fnode) + ' ' + this.loc(fnode));
            return [{ s: st, v: Sym(`rec:${keyOf(f)}(${this.argKeys(args)})`) }];
        }
        this.stats.functions.add(fnode);
        const isAsync = fnode.modifiers && fnode.modifiers.some((m) => m.kind === SK.AsyncKeyword);
        const isGen = !!fnode.asteriskToken;
        const scope = this.newScope(st, f.scope === undefined ? null : f.scope, { local: true });
        const env = { scope, mod: f.mod, inst: f.inst, thisv, cls: f.cls };
        if (isAsync) this.enterLate(st, false);
        this.stack.push({ node: fnode, name: this.fnName(fnode), loc: node ? this.loc(node) : '', scope });
        let outs;
        try {
            outs = [{ s: st }];
            fnode.parameters.forEach((p, i) => {
                if (ts.isIdentifier(p.name) && p.name.text === 'this') return;
                outs = this.bind(outs, (s) => {
                    if (p.dotDotDotToken) {
                        const rest = args.slice(i);
                        const v = rest.length === 1 && rest[0].spreadOf ? rest[0].spreadOf : this.mkArr(s, rest);
                        return this.bindPattern(p.name, v, s, env, scope, true);
                    }
                    let a = args[i];
                    if (a === undefined && args.length && args[args.length - 1].spreadOf) a = Sym(`${keyOf(args[args.length - 1].spreadOf)}[+${i}]`);
                    return this.bind(this.withDefault(s, a === undefined ? U : a, p.initializer, env), (s2, v) => {
                        // parameter properties of constructors
                        if (p.modifiers && ts.isConstructorDeclaration(fnode) && thisv && thisv.k === 'obj') {
                            const c = this.getCell(s2, thisv.id);
                            const props = new Map(c.props);
                            props.set(p.name.text, v);
                            s2.live.set(thisv.id, { ...c, props });
                        }
                        return this.bindPattern(p.name, v, s2, env, scope, false);
                    });
                });
            });
            outs = this.bind(outs, (s) => {
                if (ts.isBlock(fnode.body)) return this.block(fnode.body.statements, s, env);
                return this.ev(fnode.body, s, env).map((o) => (o.c ? o : { s: o.s, c: 'ret', v: o.v, node: fnode.body }));
            });
        } finally {
            this.stack.pop();
        }
        const res = [];
        for (const o of outs) {
            const c = o.s.live.get(scope);
            if (c && !c.captured) o.s.live.del(scope);
            if (o.s.aw) o.s.aw = o.s.aw.replace(`|${scope}|`, '');
            if (isAsync) this.leaveLate(o.s);
            if (isGen) {
                res.push({ s: o.s, v: Sym(`gen:${keyOf(f)}`, { nonnull: true }) });
                continue;
            }
            if (o.c === 'throw') {
                if (isAsync) res.push({ s: o.s, v: { k: 'promise', rejected: true, v: o.v } });
                else res.push(o);
            } else {
                const v = o.c === 'ret' ? o.v : U;
                res.push({ s: o.s, v: isAsync ? (v.k === 'promise' ? v : { k: 'promise', v }) : v });
            }
        }
        return this.compact(res, this.cfg.compactOnReturn && res.length > 1);
    }
    awaitVal(st, v, node) {
        v = this.norm(st, v);
        this.event(st, { t: 'await', node, args: [v] });
        if (this.cfg.havocOnAwait) this.bumpEpoch(st);
        if (this.cfg.duringAwait) {
            const outs = this.cfg.duringAwait(st, v, node);
            if (outs) return this.bind(outs, (s) => this.awaited(s, v, node));
        }
        return this.awaited(st, v, node);
    }
    awaited(st, v, node) {
        this.settleLate(st);
        const top = this.stack[this.stack.length - 1];
        if (top && top.scope && !st.aw.includes(`|${top.scope}|`)) st.aw += `|${top.scope}|`;
        if (v.k === 'promise') {
            if (v.rejected) return [{ s: st, c: 'throw', v: v.v, node }];
            if (v.v && v.v.k === 'promise') return this.awaitVal(st, v.v, node);
            return [{ s: st, v: v.v || U }];
        }
        if (v.k === 'sym') {
            const val = Sym(`await(${v.key})`, { awaited: v });
            if (this.cfg.awaitThrows && this.cfg.awaitThrows(v, node)) {
                const s2 = st.clone();
                return [
                    { s: st, v: val },
                    { s: s2, c: 'throw', v: Sym(`err(${v.key})`, { nonnull: true, errOf: v }), node },
                ];
            }
            return [{ s: st, v: val }];
        }
        return [{ s: st, v }];
    }
    // true when the code now running continues after an await of one of the activations on the call stack
    isLate(st) {
        return !!st.aw && this.stack.some((f) => f.scope && st.aw.includes(`|${f.scope}|`));
    }
    // An async call is followed to its end when it is made. What it writes to maps after its first await comes after
    // whatever its caller does before awaiting: such writes are done again at the caller's next await.
    enterLate(st, late) {
        if (this.cfg.lateOps) st.lt = { late, ops: [], pend: [], up: st.lt };
    }
    lateKey(st) {
        if (!this.cfg.lateOps) return '';
        let k = '';
        for (let l = st.lt; l; l = l.up) k += '/' + l.late + l.ops.map((o) => o.n) + ';' + l.pend.map((o) => o.n);
        return k;
    }
    leaveLate(st) {
        const l = st.lt;
        if (!this.cfg.lateOps || !l.up) return;
        st.lt = { ...l.up, pend: [...l.up.pend, ...l.ops, ...l.pend] };
    }
    settleLate(st) {
        if (!this.cfg.lateOps) return;
        const l = st.lt;
        for (const op of l.pend) op(st);
        st.lt = { late: true, ops: [...l.ops, ...l.pend], pend: [], up: l.up };
    }
    mapOp(st, id, op) {
        op(st);
        if (!this.cfg.lateOps || !this.root.get(id)) return;
        op.n = fresh();
        if (st.lt.late) st.lt = { ...st.lt, ops: [...st.lt.ops, op] };
    }
    // runs a callback of a promise: it continues later than the code that registered it
    later(st, f) {
        const scope = fresh();
        if (this.cfg.havocOnAwait) this.bumpEpoch(st);
        st.aw += `|${scope}|`;
        this.enterLate(st, true);
        this.stack.push({ node: null, name: 'then', loc: '', scope });
        try {
            const outs = f();
            for (const o of outs) this.leaveLate(o.s);
            return outs;
        } finally {
            this.stack.pop();
        }
    }
    newExpr(n, st, env) {
        this.stats.callSites.add(n);
        return this.bind(this.ev(n.expression, st, env), (s, f) =>
            this.bind(this.evs(n.arguments || [], s, env), (s2, args) => {
                f = this.norm(s2, f);
                if (f.k === 'class') {
                    const obj = this.instantiateShell(f, s2);
                    return this.bind(this.construct(f, obj, args, s2, n), (s3) => [{ s: s3, v: obj }]);
                }
                if (f.k === 'sym') {
                    const m = this.models.get('new ' + f.key);
                    if (m) {
                        const r = m(this, s2, args, n, { env });
                        if (r) return r;
                    }
                    const id = fresh();
                    const v = Sym(`new:${f.key.replace(/^global:/, '')}#${id}`, { nonnull: true, newOf: f.key, ctorArgs: args, node: n });
                    this.event(s2, { t: 'new', key: f.key, args, node: n, v });
                    for (const a of args) if (a.k === 'fn') this.event(s2, { t: 'escape', fn: a, key: 'new ' + f.key, node: n, args: [a] });
                    if (this.cfg.newThrows && this.cfg.newThrows(f, n)) return [{ s: s2, v }, { s: s2.clone(), c: 'throw', v: Sym(`err(${v.key})`, { nonnull: true }), node: n }];
                    return [{ s: s2, v }];
                }
                return [{ s: s2, v: Sym(`new(${keyOf(f)})#${fresh()}`, { nonnull: true }) }];
            }),
        );
    }
    mutFields(cls) {
        if (cls.node.__mut) return cls.node.__mut;
        const set = new Set();
        for (const m of cls.node.members) {
            if (ts.isConstructorDeclaration(m) || !(ts.isMethodDeclaration(m) || ts.isSetAccessor(m) || ts.isGetAccessor(m))) continue;
            const visit = (n) => {
                if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === SK.ThisKeyword) set.add(n.left.name.text);
                ts.forEachChild(n, visit);
            };
            visit(m);
        }
        cls.node.__mut = set;
        return set;
    }
    instantiateShell(cls, st) {
        let mut = new Set();
        for (let c = cls; c; c = this.superOf(c)) mut = new Set([...mut, ...this.mutFields(c)]);
        return { k: 'obj', id: this.alloc(st, { t: 'obj', props: new Map(), spreads: [], cls, mutFields: mut }) };
    }
    construct(cls, obj, args, st, node) {
        const sup = this.superOf(cls);
        let outs = [{ s: st }];
        const ctor = cls.node.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
        if (sup && !ctor) outs = this.construct(sup, obj, args, st, node);
        const env = { scope: cls.scope === undefined ? null : cls.scope, mod: cls.mod, thisv: obj, cls };
        // parameter properties are visible to field initialisers in this code base's target; bind them first
        if (ctor)
            outs = this.bind(outs, (s) => {
                ctor.parameters.forEach((p, i) => {
                    if (p.modifiers && ts.isIdentifier(p.name)) {
                        const c = this.getCell(s, obj.id);
                        const props = new Map(c.props);
                        props.set(p.name.text, args[i] || U);
                        s.live.set(obj.id, { ...c, props });
                    }
                });
                return [{ s }];
            });
        for (const m of cls.node.members) {
            if (!ts.isPropertyDeclaration(m) || this.isStatic(m)) continue;
            outs = this.bind(outs, (s) => {
                const put = (s2, v) => {
                    const c = this.getCell(s2, obj.id);
                    const props = new Map(c.props);
                    props.set(m.name.text, v);
                    s2.live.set(obj.id, { ...c, props });
                    return [{ s: s2 }];
                };
                if (!m.initializer) return put(s, U);
                return this.bind(this.named(this.ev(m.initializer, s, env), m.name.text), put);
            });
        }
        if (ctor) outs = this.bind(outs, (s) => this.callFn({ k: 'fn', node: ctor, scope: cls.scope === undefined ? null : cls.scope, mod: cls.mod, cls }, obj, args, s, node).map((o) => (o.c ? o : { s: o.s })));
        return outs.map((o) => (o.c ? o : { s: o.s, v: U }));
    }
    // structural key of a value: fresh arrays and objects compare by content
    deepKey(st, v, d = 4) {
        if (d > 0 && v.k === 'arr') {
            const c = this.getCell(st, v.id);
            if (c && c.elems) return '[' + c.elems.map((e) => (e.spreadOf ? '...' + this.deepKey(st, e.spreadOf, d - 1) : this.deepKey(st, e, d - 1))).join(',') + ']';
        }
        if (d > 0 && v.k === 'obj') {
            const c = this.getCell(st, v.id);
            if (c && !c.cls) return '{' + [...c.props].map(([k, x]) => k + ':' + this.deepKey(st, x, d - 1)).join(',') + c.spreads.map((x) => '...' + this.deepKey(st, x.v, d - 1)).join(',') + '}';
        }
        return keyOf(v);
    }
    // the reactive cell / prop an opaque value is (a part of) the content of
    rootOf(v) {
        let x = v;
        for (let i = 0; i < 12 && x; i++) {
            if (x.k !== 'sym') return x;
            if (x.cellId) return { k: 'ref', id: x.cellId };
            if (x.propOf) return x;
            const up = x.memberOf || x.elemOf || x.defaultOf || x.container || x.from;
            if (!up) return x;
            x = up;
        }
        return x;
    }
    // runs queued timers / nextTick callbacks to the end
    drain(st, limit = 12) {
        let outs = [{ s: st }];
        for (let i = 0; i < limit; i++) {
            let any = false;
            outs = this.compact(
                this.bind(outs, (s) => {
                    if (!s.deferred.length) return [{ s }];
                    any = true;
                    const [d, ...rest] = s.deferred;
                    s.deferred = rest;
                    this.event(s, { t: 'deferred-run', key: d.kind, node: d.node });
                    return this.invoke(d.fn, U, d.args || [], s, d.node).map((o) => ({ s: o.s }));
                }),
            );
            if (!any) break;
        }
        return outs;
    }
    defer(st, fn, kind, node, args) {
        st.deferred = [...st.deferred, { fn, kind, node, args }];
    }
}
const TPL_GLOBALS = new Set('Infinity,undefined,NaN,isFinite,isNaN,parseFloat,parseInt,Math,Number,Date,Array,Object,Boolean,String,RegExp,Map,Set,JSON,Intl,BigInt,console,Error,Symbol'.split(','));
const GLOBAL_MEMBERS = new Set(['Object', 'Array', 'Math', 'JSON', 'Promise', 'Number', 'String', 'Reflect', 'Symbol', 'console']);

module.exports = { Interp, St, Layer, Lit, Sym, U, NULL, TRUE, FALSE, keyOf, not, boolOf, h32, fresh, Budget };
