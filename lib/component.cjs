'use strict';
// Static model of a single-file component: props, setup, template listeners, child components.
const L = require('./load.cjs');
const { ts } = L;
const A = require('./absint.cjs');
const { Interp, St, Lit, Sym, U, TRUE, FALSE, NULL, keyOf, fresh } = A;

const camel = (s) => s.replace(/-([a-zA-Z0-9])/g, (_, c) => c.toUpperCase());
const pascal = (s) => {
    const c = camel(s);
    return c[0].toUpperCase() + c.slice(1);
};
const hyphen = (s) => s.replace(/\B([A-Z])/g, '-$1').toLowerCase();

// ---------------------------------------------------------------- options object of a component module
// `:name` stands for `:name="name"`
const sameName = (p) => (p.__same ||= { content: camel(p.arg.content), loc: { source: camel(p.arg.content), start: p.loc.start } });
function optionsNode(mod) {
    for (const s of mod.sf.statements) {
        if (ts.isExportAssignment(s)) {
            let e = s.expression;
            while (ts.isAsExpression(e) || ts.isParenthesizedExpression(e) || ts.isSatisfiesExpression(e)) e = e.expression;
            // `const component = defineComponent(..); export default component`
            if (ts.isIdentifier(e)) {
                for (const s2 of mod.sf.statements) if (ts.isVariableStatement(s2)) for (const d of s2.declarationList.declarations) if (ts.isIdentifier(d.name) && d.name.text === e.text && d.initializer) e = d.initializer;
            }
            if (ts.isCallExpression(e) && e.arguments.length) return e.arguments[0];
            return e;
        }
    }
    return null;
}
function optionProp(mod, name) {
    const o = optionsNode(mod);
    if (!o || !ts.isObjectLiteralExpression(o)) return null;
    for (const p of o.properties) if (p.name && p.name.text === name) return p;
    return null;
}

const compCache = new WeakMap(); // Interp -> Map(path -> def)
function compDef(I, mod) {
    let m = compCache.get(I);
    if (!m) compCache.set(I, (m = new Map()));
    if (m.has(mod.path)) return m.get(mod.path);
    const def = { mod, name: L.path.basename(mod.path, '.vue'), props: new Map(), emits: null, components: new Map(), setup: null, inheritAttrs: true };
    m.set(mod.path, def);
    const p = optionProp(mod, 'props');
    if (p && ts.isPropertyAssignment(p)) {
        const v = I.rootEval((st) => I.ev(p.initializer, st, { scope: null, mod }));
        if (v.k === 'obj') {
            const c = I.root.get(v.id);
            for (const [n, d] of c.props) def.props.set(n, propDecl(I, d));
            def.propsOpaque = c.spreads.length;
        } else if (v.k === 'arr') for (const e of I.root.get(v.id).elems) def.props.set(e.v, { type: null });
    }
    const e = optionProp(mod, 'emits');
    if (e && ts.isPropertyAssignment(e)) {
        const v = I.rootEval((st) => I.ev(e.initializer, st, { scope: null, mod }));
        if (v.k === 'arr') {
            const els = I.root.get(v.id).elems;
            if (els && els.every((x) => x.k === 'lit')) def.emits = new Set(els.map((x) => x.v));
        } else if (v.k === 'obj') def.emits = new Set(I.root.get(v.id).props.keys());
    }
    const c = optionProp(mod, 'components');
    if (c && ts.isPropertyAssignment(c) && ts.isObjectLiteralExpression(c.initializer)) {
        for (const q of c.initializer.properties) {
            if (ts.isShorthandPropertyAssignment(q)) def.components.set(q.name.text, { value: I.modVar(mod, q.name.text) || Sym('unknown'), node: q });
            else if (ts.isPropertyAssignment(q)) def.components.set(q.name.text, { value: I.rootEval((st) => I.ev(q.initializer, st, { scope: null, mod })), node: q });
        }
    }
    const ia = optionProp(mod, 'inheritAttrs');
    if (ia && ia.initializer && ia.initializer.kind === ts.SyntaxKind.FalseKeyword) def.inheritAttrs = false;
    const nm = optionProp(mod, 'name');
    if (nm && ts.isPropertyAssignment(nm)) {
        const v = I.rootEval((st) => I.ev(nm.initializer, st, { scope: null, mod }));
        def.optName = v;
    }
    def.setup = optionProp(mod, 'setup');
    return def;
}
function propDecl(I, d) {
    const r = { type: null, def: undefined, hasDefault: false, value: d };
    if (d.k === 'obj') {
        const c = I.root.get(d.id);
        r.type = c.props.get('type') || null;
        if (c.props.has('default')) {
            r.hasDefault = true;
            r.def = c.props.get('default');
        }
        r.required = c.props.get('required');
        r.validator = c.props.get('validator');
    } else r.type = d;
    const types = r.type ? (r.type.k === 'arr' ? I.root.get(r.type.id).elems || [] : [r.type]) : [];
    r.types = types.map((t) => keyOf(t).replace('global:', ''));
    r.isBool = r.types.includes('Boolean');
    r.onlyBool = r.isBool && r.types.length === 1;
    return r;
}

// ---------------------------------------------------------------- instances
class Inst {
    constructor(world, def, opts) {
        this.world = world;
        this.def = def;
        this.mod = def.mod;
        this.parent = opts.parent || null;
        this.el = opts.el || null;
        this.uid = (this.parent ? this.parent.uid + '/' : '') + def.name + (opts.tag ? ':' + opts.tag : '');
        this.bindings = opts.bindings || new Map();
        this.listeners = opts.listeners || new Map();
        this.attrs = opts.attrs || new Map();
        this.spreadProps = opts.spreadProps || null;
        this.conds = opts.conds || [];
        this.watchers = [];
        this.hooks = [];
        this.provided = new Map();
        this.children = [];
        this.propsVal = { k: 'props', inst: this };
        this.ret = null;
        this.isTop = opts.isTop !== undefined ? opts.isTop : !this.parent;
    }
    readProp(name, st, I) {
        const w = this.world;
        if (w.cfg.propOverride) {
            const v = w.cfg.propOverride(this, name, st);
            if (v) return [{ s: st, v }];
        }
        const decl = this.def.props.get(name);
        if (this.bindings.has(name)) {
            const b = this.bindings.get(name);
            if (b.k) return [{ s: st, v: b }];
            return b(st);
        }
        if (!decl && !this.def.propsOpaque) return [{ s: st, v: this.isTop ? Sym(`attr:${this.uid}.${name}`) : U }];
        if (this.isTop || this.spreadProps) return [{ s: st, v: Sym(`prop:${this.uid}.${name}`, { isBool: decl && decl.onlyBool, propOf: this, prop: name }) }];
        return this.defaultOf(name, st, I);
    }
    defaultOf(name, st, I) {
        const decl = this.def.props.get(name);
        if (!decl) return [{ s: st, v: U }];
        if (decl.hasDefault) {
            if (decl.def.k === 'fn' && !decl.types.includes('Function')) return I.invoke(decl.def, U, [this.propsVal], st, null).slice(0, 1);
            return [{ s: st, v: decl.def }];
        }
        return [{ s: st, v: decl.isBool ? FALSE : U }];
    }
    unwrap(v, st, I) {
        if (v.k === 'ref' || v.k === 'computed' || v.k === 'propref') return I.readRef(st, v, null);
        return [{ s: st, v }];
    }
    tplLookup(name, st, I) {
        if (name === '$emit') return { v: this.emitFn() };
        if (name === '$props') return { v: this.propsVal };
        if (name === '$slots' || name === '$attrs' || name === '$el' || name === '$refs') return { v: Sym(`${name}:${this.uid}`, { nonnull: true }) };
        if (this.ret && this.ret.k === 'obj') {
            const c = I.getCell(st, this.ret.id);
            if (c && c.props.has(name)) return { outs: this.unwrap(c.props.get(name), st, I) };
            if (c && c.spreads.length) {
                for (const sp of c.spreads)
                    if (sp.v.k === 'torefs' && sp.v.props.inst.def.props.has(name)) return { outs: sp.v.props.inst.readProp(name, st, I) };
            }
        }
        if (this.def.props.has(name)) return { outs: this.readProp(name, st, I) };
        return null;
    }
    tplAssign(name, v, st, I, node) {
        if (this.ret && this.ret.k === 'obj') {
            const c = I.getCell(st, this.ret.id);
            if (c && c.props.has(name)) {
                const r = c.props.get(name);
                if (r.k === 'ref' || r.k === 'computed' || r.k === 'propref') return I.setMember(st, r, Lit('value'), v, node, {});
            }
        }
        return null;
    }
    emitFn() {
        if (this._emit) return this._emit;
        const inst = this;
        this._emit = {
            k: 'native',
            name: 'emit',
            key: `emit:${this.uid}`,
            impl(I, st, args, node) {
                const nm = args[0] && I.norm(st, args[0]);
                const name = nm && nm.k === 'lit' ? nm.v : null;
                I.event(st, { t: 'emit', name, inst, args: args.slice(1), v: nm, node });
                let outs = [{ s: st, v: U }];
                const ls = name ? [...new Set([name, hyphen(name)])].flatMap((n) => inst.listeners.get(n) || []) : [];
                for (const l of ls) outs = I.bind(outs, (s) => l(s, args.slice(1), node));
                return I.bind(outs, (s) => [{ s, v: U }]);
            },
        };
        return this._emit;
    }
    path() {
        return this.uid;
    }
}

class World {
    constructor(cfg = {}) {
        this.cfg = cfg;
        this.cur = null;
        const w = this;
        this.I = new Interp({
            ...cfg,
            onWatch: (wt, st) => w.cur && w.cur.watchers.push(wt),
            onHook: (n, fn, st, node) => w.cur && w.cur.hooks.push({ name: n, fn, node }),
            onProvide: (k, v) => w.cur && w.cur.provided.set(keyOf(k), v),
            onInject: (key, args, st, node) => {
                if (cfg.onInject) {
                    const v = cfg.onInject(key, args, st, node, w.cur);
                    if (v) return v;
                }
                for (let p = w.cur && w.cur.parent; p; p = p.parent) if (p.provided.has(key)) return p.provided.get(key);
                return null;
            },
        });
        this.instances = [];
        this.listenersSeen = 0;
    }
    // creates an instance and runs its setup; -> {st, inst}
    mount(mod, st, opts = {}) {
        const I = this.I;
        const def = compDef(I, mod);
        const inst = new Inst(this, def, opts);
        this.instances.push(inst);
        if (opts.parent) opts.parent.children.push(inst);
        const save = this.cur;
        this.cur = inst;
        let outs = [{ s: st, v: U }];
        if (def.setup) {
            let fn;
            if (ts.isMethodDeclaration(def.setup)) fn = { k: 'fn', node: def.setup, scope: null, mod };
            else if (def.setup.initializer) fn = I.ev(def.setup.initializer, st, { scope: null, mod })[0].v;
            const ctx = I.mkObj(st, [
                ['emit', inst.emitFn()],
                ['slots', Sym(`slots:${inst.uid}`, { nonnull: true })],
                ['attrs', Sym(`attrs:${inst.uid}`, { nonnull: true })],
                ['expose', { k: 'native', name: 'expose', impl: (I2, s, a) => ((inst.exposed = a[0]), [{ s, v: U }]) }],
            ]);
            const keep = I.cfg.keepEvent;
            const je = I.joinExpr;
            I.joinExpr = true;
            outs = I.invoke(fn, U, [inst.propsVal, ctx], st, null);
            I.joinExpr = je;
            this.setupPaths = (this.setupPaths || 0) + outs.length;
            if (this.cfg.onSetup) this.cfg.onSetup(inst, outs);
            outs = outs.filter((o) => !o.c);
        }
        this.cur = save;
        if (!outs.length) throw new Error(`setup of ${def.name} always throws`);
        // join setup outcomes: later analysis starts from an arbitrary state anyway
        const seen = new Set();
        inst.watchers = inst.watchers.filter((x) => !seen.has(x.id) && seen.add(x.id));
        const m = outs.length === 1 ? outs[0] : I.mergeOuts(outs, true);
        m.s.facts = this.cfg.keepSetupFacts ? m.s.facts : new Map();
        inst.ret = m.v && m.v.k === 'promise' ? m.v.v : m.v;
        if (inst.ret && inst.ret.k === 'sym' && inst.ret.phi) inst.ret = inst.ret.phi.find((x) => x.k === 'obj') || inst.ret;
        if (this.cfg.onMounted) this.cfg.onMounted(inst, m.s);
        return { st: m.s, inst };
    }
    resolveTag(inst, tag) {
        const names = [tag, camel(tag), pascal(tag)];
        for (const n of names) if (inst.def.components.has(n)) return inst.def.components.get(n).value;
        return null;
    }
    // recursively mounts template children; collects listeners
    expand(st, inst, depth = 0) {
        const ctx = { st, inst, entries: [] };
        const tpl = inst.mod.template;
        if (!tpl) return ctx;
        const rootEls = tpl.children.filter((c) => c.type === 1);
        this.walkChildren(tpl.children, ctx, { conds: [], locals: [], depth, root: true });
        return ctx;
    }
    walkChildren(children, ctx, c) {
        let chain = [];
        const els = children.filter((x) => x.type === 1);
        for (const el of els) {
            let conds = c.conds;
            const dir = (n) => el.props.find((p) => p.type === 7 && p.name === n);
            const vif = dir('if'), velif = dir('else-if'), velse = dir('else');
            if (vif) {
                conds = [...conds, { e: vif.exp, pos: true, inst: ctx.inst, locals: c.locals }];
                chain = [vif.exp];
            } else if (velif || velse) {
                conds = [...conds, ...chain.map((e) => ({ e, pos: false, inst: ctx.inst, locals: c.locals }))];
                if (velif) {
                    conds = [...conds, { e: velif.exp, pos: true, inst: ctx.inst, locals: c.locals }];
                    chain = [...chain, velif.exp];
                } else chain = [];
            } else chain = [];
            this.walkEl(el, ctx, { ...c, conds });
        }
    }
    walkEl(el, ctx, c) {
        const { inst } = ctx;
        const I = this.I;
        let locals = c.locals;
        let conds = c.conds;
        const vfor = el.props.find((p) => p.type === 7 && p.name === 'for');
        if (vfor) {
            const r = vfor.forParseResult;
            const src = r ? r.source : null;
            const names = [];
            const grab = (x, suffix) => {
                if (!x) return;
                names.push({ pattern: x.content, src, suffix });
            };
            if (r) {
                grab(r.value, 'v');
                grab(r.key, 'k');
                grab(r.index, 'i');
            }
            locals = [...locals, ...names.map((n) => ({ ...n, kind: 'for' }))];
        }
        const vslot = el.props.find((p) => p.type === 7 && p.name === 'slot');
        if (vslot && vslot.exp) locals = [...locals, { pattern: vslot.exp.content, kind: 'slot' }];
        const vshow = el.props.find((p) => p.type === 7 && p.name === 'show');
        if (vshow) conds = [...conds, { e: vshow.exp, pos: true, inst, locals, show: true }];
        const c2 = { ...c, conds, locals };
        if (el.tag === 'template' || el.tag === 'slot') {
            this.walkChildren(el.children, ctx, { ...c2, root: c.root && el.tag === 'template' });
            return;
        }
        const comp = this.resolveTag(inst, el.tag);
        if (comp && comp.k === 'comp') this.childComponent(el, comp, ctx, c2);
        else this.nativeEl(el, ctx, c2);
        this.walkChildren(el.children, ctx, { ...c2, root: false });
    }
    // expression of a template directive evaluated in the instance scope
    tplEnv(st, inst, locals, extra) {
        const I = this.I;
        const scope = I.newScope(st, null, { local: true });
        const env = { scope, mod: inst.mod, inst };
        for (const l of locals) this.bindLocal(st, env, l, inst);
        for (const [n, v] of Object.entries(extra || {})) I.declare(st, scope, n, v, true);
        return env;
    }
    bindLocal(st, env, l, inst) {
        const I = this.I;
        const pat = this.parsePattern(l.pattern);
        let base;
        if (l.kind === 'for') {
            const srcKey = l.src ? l.src.content : '?';
            base = null;
            if (l.src && l.suffix === 'v') {
                // element of the evaluated source when it is a single value
                const probe = st.clone();
                try {
                    const o = this.evExp(l.src, probe, env, inst);
                    if (o.length === 1 && !o[0].c) base = I.elemOf(I.norm(o[0].s, o[0].v));
                } catch (e) {
                    if (e instanceof A.Budget) throw e;
                }
            }
            if (!base) base = Sym(`for:${inst.uid}:${srcKey}.${l.suffix}`);
        } else base = Sym(`slot:${inst.uid}:${l.pattern}`, { nonnull: true });
        I.bindPattern(pat, base, st, env, env.scope, true);
    }
    parsePattern(code) {
        const cache = (World.patCache ||= new Map());
        if (cache.has(code)) return cache.get(code);
        const sf = ts.createSourceFile('p.ts', `(${code}) => 0`, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
        const p = sf.statements[0].expression.parameters[0].name;
        cache.set(code, p);
        return p;
    }
    parsed(exp, inst) {
        if (!exp.__parsed) {
            const r = L.parseExpr(exp.loc.source === exp.content ? exp.content : exp.content, exp.loc.start.line);
            r.sf.__mod = inst.mod;
            r.sf.__line = exp.loc.start.line;
            exp.__parsed = r;
        }
        return exp.__parsed;
    }
    evExp(exp, st, env, inst) {
        const r = this.parsed(exp, inst);
        if (r.expr) return this.I.ev(r.expr, st, env);
        return this.I.block(r.stmts, st, env).map((o) => (o.c === 'ret' ? { s: o.s, v: o.v } : { ...o, v: o.v || U }));
    }
    runHandler(exp, st, inst, locals, args, node) {
        const I = this.I;
        if (!exp) return [{ s: st, v: U }];
        const r = this.parsed(exp, inst);
        const env = this.tplEnv(st, inst, locals, { $event: args[0] || U });
        if (r.expr) {
            let e = r.expr;
            while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression;
            const isPath = ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e);
            if (isPath || ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return I.bind(I.ev(e, st, env), (s, f) => I.invoke(I.norm(s, f), U, args, s, e, {}));
            return I.ev(e, st, env);
        }
        return I.block(r.stmts, st, env).map((o) => (o.c === 'ret' ? { s: o.s, v: o.v } : { ...o, v: o.v || U }));
    }
    assignHandler(exp, st, inst, locals, v) {
        const r = this.parsed(exp, inst);
        const env = this.tplEnv(st, inst, locals, {});
        return this.I.assignTo(r.expr, v, st, env, r.expr);
    }
    attrInfo(el, name) {
        for (const p of el.props) {
            if (p.type === 6 && camel(p.name) === name) return { static: p.value ? p.value.content : '', prop: p };
            if (p.type === 7 && p.name === 'bind' && p.arg && camel(p.arg.content) === name) return { exp: p.exp || sameName(p), prop: p };
        }
        return null;
    }
    nativeEl(el, ctx, c) {
        const { inst } = ctx;
        const on = [];
        for (const p of el.props) {
            if (p.type !== 7) continue;
            if (p.name === 'on' && p.arg) on.push({ event: p.arg.content, exp: p.exp, mods: (p.modifiers || []).map((m) => m.content || m), line: p.loc.start.line, inst, locals: c.locals });
            if (p.name === 'model') on.push({ event: 'input', model: p.exp, mods: [], line: p.loc.start.line, inst, locals: c.locals });
        }
        // listeners and attributes falling through from the parent onto the root element
        if (c.root && inst.def.inheritAttrs) {
            for (const f of inst.fallthrough || []) on.push(f);
        }
        const extraAttrs = c.root ? inst.attrs : null;
        for (const h of on) ctx.entries.push({ kind: 'event', el, event: h.event, mods: h.mods, h, inst, conds: [...inst.conds, ...c.conds], locals: c.locals, line: h.line, extraAttrs, tag: el.tag });
        ctx.elements = ctx.elements || [];
        ctx.elements.push({ el, inst, conds: [...inst.conds, ...c.conds], locals: c.locals, root: c.root });
    }
    childComponent(el, comp, ctx, c) {
        const { inst } = ctx;
        const I = this.I;
        const def = compDef(I, comp.mod);
        const w = this;
        const bindings = new Map();
        const attrs = new Map();
        const listeners = new Map();
        const fallthrough = [];
        let spreadProps = null;
        let isDynamicListeners = null;
        const bindThunk = (exp) => (st) => {
            const env = w.tplEnv(st, inst, c.locals);
            return w.evExp(exp, st, env, inst);
        };
        const addListener = (name, fn) => {
            const k = camel(name);
            for (const n of new Set([name, k])) listeners.set(n, [...(listeners.get(n) || []), fn]);
        };
        for (const p of el.props) {
            if (p.type === 6) {
                const n = camel(p.name);
                if (def.props.has(n)) bindings.set(n, def.props.get(n).isBool && (!p.value || p.value.content === '') ? TRUE : Lit(p.value ? p.value.content : ''));
                else attrs.set(n, Lit(p.value ? p.value.content : ''));
                continue;
            }
            if (p.name === 'bind' && p.arg && p.exp) {
                const n = camel(p.arg.content);
                if (def.props.has(n)) bindings.set(n, bindThunk(p.exp));
                else attrs.set(n, bindThunk(p.exp));
            } else if (p.name === 'bind' && p.arg && !p.exp) {
                const n = camel(p.arg.content);
                (def.props.has(n) ? bindings : attrs).set(n, bindThunk(sameName(p)));
            } else if (p.name === 'bind') spreadProps = p.exp;
            else if (p.name === 'on' && p.arg) {
                const ev = p.arg.content;
                const declared = def.emits && (def.emits.has(ev) || def.emits.has(camel(ev)) || def.emits.has(hyphen(ev)));
                const lis = (s, args, node) => w.runHandler(p.exp, s, inst, c.locals, args, node);
                lis.exp = p.exp;
                addListener(ev, lis);
                if (!declared) fallthrough.push({ event: ev, exp: p.exp, mods: (p.modifiers || []).map((m) => m.content || m), line: p.loc.start.line, inst, locals: c.locals, conds: c.conds });
            } else if (p.name === 'model') {
                const n = p.arg ? camel(p.arg.content) : 'modelValue';
                bindings.set(n, bindThunk(p.exp));
                const lis = (s, args) => w.assignHandler(p.exp, s, inst, c.locals, args[0] || U);
                lis.model = true;
                addListener('update:' + n, lis);
            }
        }
        const tag = String(el.loc.start.line);
        const depth = c.depth + 1;
        if (depth > (this.cfg.maxNesting || 6) || this.nestCount(inst, comp.mod) >= 2) return;
        const conds = [...inst.conds, ...c.conds];
        const r = this.mount(comp.mod, ctx.st, { parent: inst, el, bindings, listeners, attrs, spreadProps, conds, tag });
        ctx.st = r.st;
        r.inst.fallthrough = [...fallthrough, ...(c.root && inst.def.inheritAttrs ? inst.fallthrough || [] : [])];
        r.inst.slotLocals = c.locals;
        const sub = this.expand(ctx.st, r.inst, depth);
        ctx.st = sub.st;
        ctx.entries.push(...sub.entries);
        ctx.elements = [...(ctx.elements || []), ...(sub.elements || [])];
    }
    nestCount(inst, mod) {
        let n = 0;
        for (let p = inst; p; p = p.parent) if (p.mod === mod) n++;
        return n;
    }
    // full model of a component: mounted top instance with all descendants, frozen
    build(file, opts = {}) {
        const mod = L.loadModule(file);
        const { st, inst } = this.mount(mod, new St(), opts);
        const ctx = this.expand(st, inst, 0);
        const setupState = ctx.st;
        const frozen = this.I.freeze(setupState);
        return { mod, inst, entries: ctx.entries, elements: ctx.elements || [], setupState, frozen, all: this.instances.slice() };
    }
    // states in which all v-if / v-show conditions hold
    assumeConds(st, conds) {
        let sts = [st];
        for (const c of conds) {
            const next = [];
            for (const s of sts) {
                const env = this.tplEnv(s, c.inst, c.locals);
                const r = this.parsed(c.e, c.inst);
                if (!r.expr) {
                    next.push(s);
                    continue;
                }
                const t = this.I.cond(r.expr, s, env);
                next.push(...(c.pos ? t.t : t.f));
            }
            sts = this.I.compactStates(next);
        }
        return sts;
    }
    attrValue(st, el, inst, locals, name, extra) {
        const a = this.attrInfo(el, name);
        if (a && a.exp) return this.evExp(a.exp, st, this.tplEnv(st, inst, locals), inst);
        if (a) return [{ s: st, v: Lit(a.static === '' ? true : a.static) }];
        if (extra && extra.has(name)) {
            const x = extra.get(name);
            return x.k ? [{ s: st, v: x.k === 'lit' && x.v === '' ? TRUE : x }] : x(st);
        }
        return null;
    }
    inputType(entry) {
        const a = this.attrInfo(entry.el, 'type');
        if (a && a.static) return a.static;
        return a ? 'dynamic' : 'text';
    }
    // states in which the user can trigger this entry
    enabledStates(entry, st) {
        let sts = this.assumeConds(st, entry.conds);
        if (entry.kind !== 'event') return sts;
        const gate = (attr) => {
            const next = [];
            for (const s of sts) {
                const outs = this.attrValue(s, entry.el, entry.inst, entry.locals, attr, entry.extraAttrs);
                if (!outs) {
                    next.push(s);
                    continue;
                }
                for (const o of outs) {
                    if (o.c) continue;
                    const t = this.I.truth(o.s, o.v);
                    if (t.f) next.push(t.f);
                }
            }
            sts = next;
        };
        if (['button', 'input', 'select', 'textarea', 'fieldset', 'option'].includes(entry.tag)) gate('disabled');
        if ((entry.tag === 'textarea' || (entry.tag === 'input' && !['checkbox', 'radio', 'file', 'range', 'color', 'button', 'submit'].includes(this.inputType(entry)))) && ['input', 'change', 'beforeinput', 'compositionend', 'paste'].includes(entry.event)) gate('readonly');
        return sts;
    }
    runEntry(entry, st) {
        const I = this.I;
        const out = [];
        for (const s of this.enabledStates(entry, st)) {
            const ev = Sym(`$event:${entry.event}`, { nonnull: true });
            let outs;
            if (entry.h.model) outs = this.assignHandler(entry.h.model, s, entry.h.inst, entry.h.locals, Sym('user-input'));
            else outs = this.runHandler(entry.h.exp, s, entry.h.inst, entry.h.locals, [ev], null);
            out.push(...outs.map((o) => ({ s: o.s, c: o.c === 'throw' ? 'throw' : undefined, v: o.v })));
        }
        return I.compact(out);
    }
    // evaluates a watcher source to a canonical key
    sourceVals(w, st) {
        const I = this.I;
        const src = w.source;
        if (!src) return null;
        const one = (v, s) => {
            if (v.k === 'ref' || v.k === 'computed' || v.k === 'propref') return I.readRef(s, v, w.node);
            if (v.k === 'fn') return I.invoke(v, U, [], s, w.node);
            return [{ s, v }];
        };
        if (src.k === 'arr') {
            let outs = [{ s: st, v: [] }];
            for (const e of I.elements(st, src) || []) outs = I.bind(outs, (s, acc) => I.bind(one(e, s), (s2, v) => [{ s: s2, v: [...acc, v] }]));
            return outs.filter((o) => !o.c).map((o) => ({ s: o.s, v: o.v, arr: true }));
        }
        return one(src, st).filter((o) => !o.c);
    }
    // run watchers whose source changed between st0 and each outcome; bounded rounds
    flush(before, outs, instances, rounds = 3) {
        const I = this.I;
        const ks = (o) => (o.arr ? o.v.map(keyOf).join('|') : keyOf(o.v));
        let cur = outs;
        for (let i = 0; i < rounds; i++) {
            let any = false;
            const next = [];
            for (const o of cur) {
                if (o.c) {
                    next.push(o);
                    continue;
                }
                let res = [{ s: o.s, v: o.v, prev: o.prev || before }];
                const ref = o.prev || before;
                if (o.s.ver === ref.ver && o.s.live.m.size === 0) {
                    next.push(o);
                    continue;
                }
                const now = o.s.clone();
                for (const inst of instances)
                    for (const w of inst.watchers) {
                        if (!w.cb || (w.cb.k !== 'fn' && w.cb.k !== 'native')) continue;
                        const upd = [];
                        for (const x of res) {
                            if (x.c) {
                                upd.push(x);
                                continue;
                            }
                            const changed = this.changedSource(w, ref, now, x.s);
                            if (!changed) {
                                upd.push(x);
                                continue;
                            }
                            any = true;
                            for (const ch of changed) {
                                for (const r of I.invoke(w.cb, U, [ch.nv, ch.ov], ch.s, w.node)) upd.push(r.c ? { s: r.s } : { s: r.s, v: x.v });
                            }
                        }
                        res = I.compact(upd);
                    }
                for (const r of res) next.push({ ...r, prev: now });
            }
            cur = I.compact(next);
            if (!any) break;
        }
        return cur;
    }
    // cells and props a watcher source depends on
    deps(w, st) {
        const I = this.I;
        const set = new Set();
        const prev = I.cfg.onRead;
        I.cfg.onRead = (o) => {
            if (o.k === 'ref') set.add('ref#' + o.id);
            if (o.k === 'propref') set.add('prop:' + o.props.inst.uid + '.' + o.name);
        };
        try {
            this.sourceVals(w, st.clone());
        } finally {
            I.cfg.onRead = prev;
        }
        return set;
    }
    changedSource(w, before, now, st) {
        const I = this.I;
        if (w.kind !== 'watch' || !w.source) return null;
        const a = this.sourceVals(w, before.clone());
        const b = this.sourceVals(w, now.clone());
        const k = (os) => (os || []).map((o) => (o.arr ? o.v.map((x) => I.deepKey(o.s, x)).join('|') : I.deepKey(o.s, o.v))).sort().join('&');
        if (k(a) === k(b)) return null;
        const cur = this.sourceVals(w, st.clone());
        if (!cur || !cur.length) return null;
        const ov = a && a.length === 1 && !a[0].arr ? a[0].v : Sym(`old#${w.id}`);
        const res = [];
        for (const o of cur) res.push({ s: o.s, nv: o.arr ? I.mkArr(o.s, o.v) : o.v, ov: o.arr ? Sym(`old#${w.id}`) : ov });
        return res;
    }
}

module.exports = { World, Inst, compDef, optionsNode, optionProp, propDecl, camel, pascal, hyphen };
