'use strict';
// Model of the assistant server: its modules as loaded, upstream requests, and what each function can reach.
const L = require('./load.cjs');
const A = require('./absint.cjs');
const { Unit } = require('./unit.cjs');
const { Sym, Lit, U, keyOf, fresh } = A;
const { ts } = L;

// ---------------------------------------------------------------- what a function reaches
// identifiers used as values in a subtree
function uses(node, f) {
    const visit = (n) => {
        if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
        if (ts.isIdentifier(n)) {
            const p = n.parent;
            const member = (ts.isPropertyAccessExpression(p) && p.name === n) || (ts.isPropertyAssignment(p) && p.name === n);
            if (!member) f(n);
        }
        ts.forEachChild(n, visit);
    };
    visit(node);
}
class Reach {
    constructor(I) {
        this.I = I;
        this.memo = new Map();
    }
    // the declaration an identifier of a module stands for: {mod, name, d}
    resolve(mod, name, seen = new Set()) {
        const inf = this.I.info(mod);
        const imp = inf.imports.get(name);
        if (!imp) return inf.decls.has(name) ? { mod, name, d: inf.decls.get(name) } : null;
        const p = L.resolveImport(imp.spec, mod.path);
        if (!p) return { ext: `${imp.spec}#${imp.name}` };
        return this.exported(L.loadModule(p), imp.name, seen);
    }
    exported(mod, name, seen = new Set()) {
        const k = mod.path + '#' + name;
        if (seen.has(k)) return null;
        seen.add(k);
        const inf = this.I.info(mod);
        const e = inf.exports.get(name);
        if (e && e.local) return this.resolve(mod, e.local, seen);
        if (e && !e.spec) return this.resolve(mod, e.name, seen);
        if (e) {
            const p = L.resolveImport(e.spec, mod.path);
            return p ? this.exported(L.loadModule(p), e.name, seen) : { ext: `${e.spec}#${e.name}` };
        }
        for (const s of inf.stars) {
            const p = s.spec && L.resolveImport(s.spec, mod.path);
            const r = p && this.exported(L.loadModule(p), name, seen);
            if (r) return r;
        }
        return null;
    }
    // everything a declaration reaches through names: {fetch, state: Set of module-level mutable bindings, decls}
    of(mod, node) {
        const k = node;
        if (this.memo.has(k)) return this.memo.get(k);
        const out = { fetch: false, state: new Set(), globals: new Set(), ext: new Set(), fns: new Set(), vars: new Set() };
        this.memo.set(k, out);
        const todo = [[mod, node]];
        const seen = new Set([node]);
        while (todo.length) {
            const [m, n] = todo.pop();
            uses(n, (id) => {
                const r = this.resolve(m, id.text);
                if (!r) {
                    if (this.local(id)) return;
                    out.globals.add(id.text);
                    if (id.text === 'fetch') out.fetch = true;
                    return;
                }
                if (r.ext) {
                    out.ext.add(r.ext);
                    return;
                }
                if (r.d.kind === 'var') {
                    if (this.mutable(r.d)) out.state.add(`${r.mod.rel}#${r.name}`);
                }
                if (!seen.has(r.d.node)) {
                    seen.add(r.d.node);
                    if (r.d.kind === 'fn') out.fns.add(r.d.node);
                    else out.vars.add(r.d.node);
                    todo.push([r.mod, r.d.node]);
                }
            });
        }
        return out;
    }
    local(id) {
        for (let n = id.parent; n && !ts.isSourceFile(n); n = n.parent) {
            if (n.parameters && n.parameters.some((p) => names(p.name).includes(id.text))) return true;
            if ((ts.isFunctionExpression(n) || ts.isFunctionDeclaration(n)) && n.name && n.name.text === id.text) return true;
            if (ts.isCatchClause(n) && n.variableDeclaration && names(n.variableDeclaration.name).includes(id.text)) return true;
            if ((ts.isForOfStatement(n) || ts.isForInStatement(n) || ts.isForStatement(n)) && n.initializer && ts.isVariableDeclarationList(n.initializer) && n.initializer.declarations.some((d) => names(d.name).includes(id.text))) return true;
            const stmts = ts.isBlock(n) ? n.statements : ts.isCaseClause(n) || ts.isDefaultClause(n) ? n.statements : null;
            for (const s of stmts || []) {
                if (ts.isVariableStatement(s) && s.declarationList.declarations.some((d) => names(d.name).includes(id.text))) return true;
                if (ts.isFunctionDeclaration(s) && s.name && s.name.text === id.text) return true;
            }
        }
        return false;
    }
    // a module-level binding whose contents can change
    mutable(d) {
        if (!d.const) return true;
        const i = d.node.initializer;
        return !!i && ts.isNewExpression(i) && /^(Map|Set|WeakMap|WeakSet)$/.test(i.expression.getText());
    }
}
function names(n, out = []) {
    if (ts.isIdentifier(n)) out.push(n.text);
    else for (const e of n.elements || []) if (e.name) names(e.name, out);
    return out;
}

// ---------------------------------------------------------------- server
const one = (s, v) => [{ s, v }];
class Server {
    constructor(cfg = {}) {
        this.answer = () => 'ok'; // outcome of a request: ok | reject | status | body
        this.u = new Unit({
            keepEvent: (e) => e.t === 'request' || e.t === 'loadfail' || (cfg.keep && cfg.keep(e)),
            lateOps: true,
            knownSets: true,
            distinctKeys: true,
            implicitThrow: false,
            keepFact: (k) => !/body\(/.test(k),
            each: 40,
            unroll: 4,
            mid: 200,
            hard: 2000,
            fetch: (I, st, args, node) => this.fetch(I, st, args, node),
            ...cfg,
            decide: (v, st) => {
                // text with a known beginning differs from a literal that begins otherwise
                if (v.eq && v.eq.of && v.eq.of.parts && v.eq.of.parts[0].k === 'lit') {
                    const a = v.eq.of.parts[0].v, b = String(v.eq.lit);
                    if (typeof v.eq.lit !== 'string' || !b.startsWith(a)) return false;
                }
                return cfg.decide ? cfg.decide(v, st) : undefined;
            },
            onOpaque: (c, st, I) => {
                if (this.calls && c.recv && c.recv.server) this.calls.push({ args: c.args, s: st.clone() });
                return cfg.onOpaque ? cfg.onOpaque(c, st, I) : null;
            },
            intercept: (f, thisv, args, st, node, I) => this.parsed(f, args, st, I) || this.loaded(f, args, st, I) || (cfg.intercept ? cfg.intercept(f, thisv, args, st, node, I) : null),
        });
        this.I = this.u.I;
        this.reach = new Reach(this.I);
        this.files = L.sourceFiles(L.MCP).map((p) => L.loadModule(p));
        for (const n of ['Error', 'TypeError', 'RangeError', 'SyntaxError'])
            this.I.models.set(`new global:${n}`, (I, st, args) => one(st, this.error(st, args[0] || Lit(''))));
        // a leading-character pattern does not touch text that starts with another character
        const replace = this.I.models.get('#replace');
        this.I.models.set('#replace', (I, st, args, node, info) => {
            const r = info.recv && I.norm(st, info.recv);
            const m = args[0] && args[0].k === 'regex' && args[0].text.match(/^\/\^\\?(.)[+*?]?\/$/);
            const first = r && r.parts && r.parts[0].k === 'lit' ? r.parts[0].v[0] : null;
            if (m && first && !/[A-Za-z.]/.test(m[1]) && first !== m[1] && args[1] && args[1].k === 'lit' && args[1].v === '') return one(st, r);
            return replace ? replace(I, st, args, node, info) : null;
        });
        this.I.models.set('global:encodeURIComponent', (I, st, args) => {
            const v = I.norm(st, args[0]);
            return one(st, v.k === 'lit' ? Lit(encodeURIComponent(v.v)) : Sym(`encodeURIComponent(${keyOf(v)})`, { nonnull: v.nonnull, encoded: v, body: v.body }));
        });
    }
    error(st, message) {
        const v = this.I.mkObj(st, [['message', message]]);
        const c = this.I.getCell(st, v.id);
        st.live.set(v.id, { ...c, error: true });
        return v;
    }
    // a function computing something from downloaded text without touching shared state: its result is opaque
    parsed(f, args, st, I) {
        // (an absent optional file reads as empty text)
        if (!args.some((a) => (a.k === 'lit' && a.v === '') || (this.opaqueData && a.k === 'sym' && !a.phi) || (a.k === 'sym' && (a.body || (a.parts && a.parts.some((p) => p.body)))))) return null;
        if (f.scope !== null && f.scope !== undefined) return null;
        const node = f.node;
        if (node.modifiers && node.modifiers.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword)) return null;
        const r = this.reach.of(f.mod, node);
        if (r.fetch || r.state.size) return null;
        if (this.addresses(r, node)) return null;
        if (this.opaqueData && (this.builds(r, node, this.opaqueData) || (!this.opaqueParse && r.globals.has('JSON') && this.text(node, r)))) return null;
        const outs = one(st, Sym(`${I.fnName(node)}(${args.map(keyOf).join(',')})`, { body: true, pure: { f, args } }));
        if (this.opaqueData && this.throws(r, node)) {
            const bad = st.clone();
            outs.push({ s: bad, c: 'throw', v: this.error(bad, Sym('failure', { nonnull: true })) });
        }
        return outs;
    }
    // does code a function reaches spell out addresses, for an analysis that looks at them
    addresses(r, node) {
        if (!this.readAddresses) return false;
        if (r.addresses === undefined) r.addresses = [node, ...r.fns, ...r.vars].some((n) => /https?:\/\/[\w.]*github/.test(n.getText()));
        return r.addresses;
    }
    // does code a function reaches take structures out of text
    text(node, r) {
        return [node, ...r.fns].some((n) => /\bJSON\s*\.\s*parse\b/.test(n.getText()));
    }
    // can code a function reaches raise on its own, outside any try of that code
    throws(r, node) {
        if (r.throws === undefined) {
            r.throws = false;
            const visit = (n) => {
                if (ts.isTryStatement(n) && n.catchClause) {
                    visit(n.catchClause);
                    if (n.finallyBlock) visit(n.finallyBlock);
                    return;
                }
                if (ts.isThrowStatement(n)) r.throws = true;
                if (ts.isCallExpression(n) && /^(JSON\.parse|decodeURI(Component)?)$/.test(n.expression.getText())) r.throws = true;
                if (ts.isNewExpression(n) && /^(URL)$/.test(n.expression.getText())) r.throws = true;
                ts.forEachChild(n, visit);
            };
            for (const n of [node, ...r.fns]) visit(n);
        }
        return r.throws;
    }
    // does anything a function reaches build an object with this member
    builds(r, node, key) {
        if (Array.isArray(key)) return key.some((k) => this.builds(r, node, k));
        if (!r.builds) r.builds = new Map();
        if (!r.builds.has(key)) {
            let hit = false;
            const visit = (n) => {
                if ((ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) && n.name.getText() === key) hit = true;
                if (!hit) ts.forEachChild(n, visit);
            };
            for (const n of [node, ...r.fns]) if (!hit) visit(n);
            r.builds.set(key, hit);
        }
        return r.builds.get(key);
    }
    // a function that only loads repository data: some result, or a failure
    loaded(f, args, st, I) {
        if (!this.opaqueData || f.k !== 'fn' || !f.mod || (f.scope !== null && f.scope !== undefined)) return null;
        const r = this.reach.of(f.mod, f.node);
        if (this.builds(r, f.node, this.opaqueData)) return null;
        const isAsync = !!f.node.modifiers && f.node.modifiers.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
        if (!r.fetch || !isAsync) return null;
        const v = Sym(`${I.fnName(f.node)}(${args.map((a) => this.show(st, a)).join(',')})`, { body: true, loaded: f });
        if (this.onLoad) this.onLoad(f, args, st);
        I.event(st, { t: 'load', fn: I.fnName(f.node), node: f.node, mod: f.mod, shown: args.map((a) => this.show(st, a)) });
        const bad = st.clone();
        I.event(bad, { t: 'loadfail', fn: I.fnName(f.node) });
        return [
            { s: st, v: { k: 'promise', v } },
            { s: bad, v: { k: 'promise', rejected: true, v: this.error(bad, Sym('failure', { nonnull: true })) } },
        ];
    }
    show(st, v, d = 0) {
        if (!v || v.id === undefined || d > 3) return v ? keyOf(v) : '';
        const c = this.I.getCell(st, v.id);
        if (c && c.props) return `{${[...c.props].map(([n, x]) => `${n}:${this.show(st, x, d + 1)}`).join(',')}}`;
        return keyOf(v);
    }
    fetch(I, st, args, node) {
        const url = I.norm(st, args[0]);
        const id = fresh();
        const key = keyOf(url);
        const how = this.answer(key, url, st);
        const status = Sym(`status#${id}`, { nonnull: false, httpStatus: true });
        I.event(st, { t: 'request', key, url, how, status, node, args, seq: id });
        if (how === 'reject') return one(st, { k: 'promise', rejected: true, v: this.error(st, Lit('fetch failed')) });
        const later = (name, v) => ({
            k: 'native',
            name: `Response.${name}`,
            key: `Response.${name}#${id}`,
            impl: (I2, s) => one(s, how === 'body' ? { k: 'promise', rejected: true, v: this.error(s, Lit('terminated')) } : { k: 'promise', v: v(s) }),
        });
        const body = Sym(`body(${key})`, { body: true, of: url });
        const bad = how === 'status' || how === 'gone';
        const res = I.mkObj(st, [
            ['ok', Lit(!bad)],
            ['status', how === 'gone' ? Lit(404) : bad ? status : Lit(200)],
            ['text', later('text', () => body)],
            ['json', later('json', (s) => I.mkArr(s, [Sym(`entry(${key})`, { nonnull: true, body: true, of: url })]))],
        ]);
        return one(st, { k: 'promise', v: res });
    }
    // all modules just loaded: shared containers as their initialisers leave them
    fresh() {
        const st = this.u.state();
        for (const mod of this.files) {
            const inf = this.I.info(mod);
            const id = this.I.modScope(mod);
            const c = this.I.root.get(id);
            const vars = new Map(c.vars);
            for (const [n, d] of inf.decls) {
                if (d.kind !== 'var') continue;
                if (d.const && this.reach.mutable(d)) this.u.asBuilt(st, this.I.modVar(mod, n));
                if (!d.const) vars.set(n, d.node.initializer ? this.I.rootEval((s) => this.I.ev(d.node.initializer, s, { scope: null, mod })) : U);
            }
            if (vars.size) st.live.set(id, { ...c, vars });
        }
        return st;
    }
    // exported functions: [{mod, name, fn, reach}]
    functions(pred = () => true) {
        const out = [];
        for (const mod of this.files) {
            for (const [name, e] of this.I.info(mod).exports) {
                if (!e.local || e.typeOnly) continue;
                const r = this.reach.resolve(mod, e.local);
                if (!r || !r.d || r.d.kind !== 'fn') continue;
                const fn = this.I.modVar(mod, e.local);
                const x = { mod, name, fn, node: r.d.node, reach: this.reach.of(mod, r.d.node) };
                if (pred(x)) out.push(x);
            }
        }
        return out;
    }
    // runs a call to its end, including what it does after awaits: [{s, v, rejected}]
    run(fn, args, st) {
        const outs = this.I.bind(this.I.invoke(fn, U, args, st, null), (s, v) => one(s, v));
        const res = [];
        for (const o of outs) {
            if (o.c) {
                res.push({ s: o.s, v: o.v, rejected: true });
                continue;
            }
            const w = this.I.awaitVal(o.s, o.v, null);
            for (const x of w) res.push({ s: x.s, v: x.v, rejected: x.c === 'throw' });
        }
        for (const o of res) o.s.lt = { late: false, ops: [], pend: [], up: null };
        return res;
    }
}
// what a parameter can hold, as far as its declared type tells: [{name, make: (server, state) => value}]
const VERSION = Sym('version', { nonnull: true, ident: 'version' });
function choices(p) {
    const type = p.type ? p.type.getText() : '';
    const name = p.name.getText();
    if (!/(^|\W)VersionContext(\W|$)/.test(type)) return [{ name: '', make: () => Sym(`arg:${name}`) }];
    const ctx = (known) => (srv, st) =>
        srv.I.mkObj(st, [
            ['source', Lit(known ? 'input' : 'unknown')],
            ['requestedVersion', known ? VERSION : U],
            ['detectedVersion', known ? VERSION : U],
            ['warnings', srv.I.mkArr(st, [])],
        ]);
    const out = [
        { name: 'a version', make: ctx(true) },
        { name: 'no version', make: ctx(false) },
    ];
    if (p.questionToken) out.push({ name: 'no context', make: () => U });
    return out;
}
// argument lists of a function: [{name, make}]
function argLists(node) {
    let out = [{ name: '', make: () => [] }];
    for (const p of node.parameters)
        out = out.flatMap((o) => choices(p).map((c) => ({ name: [o.name, c.name].filter(Boolean).join(', '), make: (srv, st) => [...o.make(srv, st), c.make(srv, st)] })));
    return out;
}
module.exports = { Server, Reach, uses, argLists };
