'use strict';
// M01: the server only reads this project's repository.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit, U } = A;
const { ts } = L;
const { Server } = require('../lib/mcp.cjs');
const { tools, inputs } = require('../lib/tools.cjs');
const { analyse } = require('../lib/regex.cjs');
const { report } = require('../lib/report.cjs');

const BASES = ['https://api.github.com/repos/vlossom-ui/vlossom/', 'https://raw.githubusercontent.com/vlossom-ui/vlossom/'];
const MODULES = /^(node:)?(child_process|cluster|worker_threads|vm|net|tls|http|https|http2|dgram|repl|inspector|undici|axios|node-fetch|got|ky|ws|execa|shelljs|rimraf|fs-extra)(\/|$)/;
const FS = /^(node:)?fs(\/promises)?$/;
const READS = /^(read\w*|exists\w*|stat(Sync)?|lstat(Sync)?|access(Sync)?|realpath(Sync)?|opendir(Sync)?|createReadStream|constants|promises)$/;
const GLOBALS = /^(eval|Function|XMLHttpRequest|WebSocket|EventSource|WebAssembly)$/;
// members of a global object that may be used
const MEMBERS = {
    console: (m) => /^(error|warn|trace|assert)$/.test(m),
    process: (m) => !/^(stdout|kill|abort|binding|dlopen|chdir|umask|set[eug]+id|setgroups|initgroups|report|mainModule)$/.test(m),
};
const UNSAFE = ['/', '\\', '?', '#', '%'];
const CTX = /(^|\W)VersionContext(\W|$)/;
const text = (n) => (n && n.type ? n.type.getText() : '');
// text methods whose result only has characters of the text they are called on
const KEEP = ['trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'slice', 'substring', 'substr', 'charAt', 'at', 'toString', 'toLocaleLowerCase', 'toLocaleUpperCase'];

class Effects {
    constructor(R) {
        this.R = R;
        this.srv = new Server({ mid: 60, joinText: true, loopText: true });
        this.srv.readAddresses = true;
        this.I = this.srv.I;
        this.sites = new Set();
    }
    at(mod, n) {
        return { file: mod.rel, line: L.lineOf(mod, n.getStart(mod.sf)) };
    }
    bad(mod, n, what, key) {
        this.R.violation({ ...this.at(mod, n), key: `${mod.rel} ${key || what}`, message: what });
    }
    // ------------------------------------------------------------ forbidden effects, by name resolution
    lint() {
        for (const mod of this.srv.files) {
            this.R.count('modules');
            const imports = new Map(); // local name -> module whose members it gives access to
            const visit = (n) => {
                if (ts.isImportDeclaration(n) || (ts.isExportDeclaration(n) && n.moduleSpecifier)) this.imported(mod, n, n.moduleSpecifier.text, imports);
                if (ts.isCallExpression(n) && (n.expression.kind === ts.SyntaxKind.ImportKeyword || n.expression.getText() === 'require')) {
                    const a = n.arguments[0];
                    if (!a || !ts.isStringLiteralLike(a)) this.bad(mod, n, 'loads a module chosen at run time');
                    else if (MODULES.test(a.text) || FS.test(a.text)) this.bad(mod, n, `loads ${a.text} at run time`);
                }
                if (ts.isIdentifier(n)) this.identifier(mod, n, imports);
                if (ts.isCallExpression(n) && /^(setTimeout|setInterval|setImmediate)$/.test(n.expression.getText()) && n.arguments[0] && ts.isStringLiteralLike(n.arguments[0])) this.bad(mod, n, 'evaluates text as code');
                ts.forEachChild(n, visit);
            };
            visit(mod.sf);
        }
    }
    imported(mod, n, spec, imports) {
        this.R.count('imports_checked');
        if (n.importClause && n.importClause.isTypeOnly) return;
        if (MODULES.test(spec)) return this.bad(mod, n, `uses ${spec}`);
        const c = n.importClause;
        const named = c && c.namedBindings && ts.isNamedImports(c.namedBindings) ? c.namedBindings.elements : [];
        const whole = [c && c.name, c && c.namedBindings && ts.isNamespaceImport(c.namedBindings) && c.namedBindings.name].filter(Boolean);
        const kind = FS.test(spec) ? 'fs' : /^(node:)?process$/.test(spec) ? 'process' : /^(node:)?console$/.test(spec) ? 'console' : null;
        if (!kind) return;
        for (const e of named) {
            const name = (e.propertyName || e.name).text;
            if (!this.allowed(kind, name)) this.bad(mod, e, this.says(kind, name));
        }
        for (const w of whole) imports.set(w.text, kind);
    }
    allowed(kind, name) {
        return kind === 'fs' ? READS.test(name) : MEMBERS[kind](name);
    }
    says(kind, name) {
        if (kind === 'fs') return `uses ${name} of the file system, which is not a read`;
        if (kind === 'console' || name === 'stdout') return `writes to standard output (${kind}.${name})`;
        return `uses ${kind}.${name}`;
    }
    identifier(mod, n, imports) {
        const p = n.parent;
        if ((ts.isPropertyAccessExpression(p) && p.name === n) || (ts.isPropertyAssignment(p) && p.name === n) || ts.isImportSpecifier(p) || ts.isImportClause(p) || ts.isNamespaceImport(p)) return;
        for (let q = p; q; q = q.parent) if (ts.isTypeNode(q) || ts.isInterfaceDeclaration(q) || ts.isTypeAliasDeclaration(q)) return;
        let kind = imports.get(n.text);
        if (!kind) {
            if (this.srv.reach.resolve(mod, n.text) || this.srv.reach.local(n)) return;
            if (n.text === 'globalThis' || n.text === 'global') {
                const m = this.memberOf(n);
                if (m && (GLOBALS.test(m) || m === 'fetch')) this.bad(mod, n, `uses ${m}`);
                return;
            }
            if (GLOBALS.test(n.text)) return this.bad(mod, n, `uses ${n.text}`);
            if (n.text === 'fetch') {
                this.R.count('request_sites');
                if (ts.isCallExpression(p) && p.expression === n) this.sites.add(p);
                else this.bad(mod, n, 'passes the ability to send requests around');
                return;
            }
            kind = MEMBERS[n.text] ? n.text : null;
        }
        if (!kind) return;
        this.R.count('effect_uses');
        const m = this.memberOf(n);
        const names = m ? [m] : this.destructured(n);
        if (!names) this.bad(mod, n, `passes ${n.text} around`);
        else for (const x of names) if (!this.allowed(kind, x)) this.bad(mod, n, this.says(kind, x));
    }
    memberOf(n) {
        const p = n.parent;
        if (ts.isPropertyAccessExpression(p) && p.expression === n) return p.name.text;
        if (ts.isElementAccessExpression(p) && p.expression === n && ts.isStringLiteralLike(p.argumentExpression)) return p.argumentExpression.text;
        return null;
    }
    destructured(n) {
        const p = n.parent;
        if (!ts.isVariableDeclaration(p) || p.initializer !== n || !ts.isObjectBindingPattern(p.name)) return null;
        return p.name.elements.map((e) => (e.propertyName || e.name).getText());
    }
    // ------------------------------------------------------------ requests
    // 2: no separators or dots, 1: cannot be a path of its own, 0: anything
    level(re) {
        const a = re && analyse(re.text);
        if (!a || UNSAFE.some((c) => a.chars.has(c))) return 0;
        if (!a.chars.has('.')) return 2;
        return !a.first.has('.') && !a.empty ? 1 : 0;
    }
    literal(s) {
        if (UNSAFE.some((c) => s.includes(c))) return 0;
        return s.includes('.') ? (/^\./.test(s) ? 0 : 1) : 2;
    }
    // what the conditions on this path say about a text
    tested(st, v) {
        let best = 0;
        const k = keyOf(v);
        for (const [key, val] of st.facts) {
            if (val !== true) continue;
            const m = key.match(/^(\/.*\/[a-z]*)\.test\((.*)\)$/s);
            const re = m && m[2] === k ? m[1] : key.startsWith(`${k}.match(/`) ? key.slice(k.length + 7, -1) : null;
            const a = re && analyse(re);
            if (a && a.whole) best = Math.max(best, this.level({ text: re }));
        }
        return best;
    }
    safe(st, v, d = 0) {
        if (!v || d > 12) return 0;
        if (v.k === 'lit') return this.literal(String(v.v));
        if (v.phi) return Math.min(...v.phi.map((x) => this.safe(st, x, d + 1)));
        if (v.k === 'arr') {
            const c = this.I.getCell(st, v.id);
            return c && c.elems ? Math.min(2, ...c.elems.map((x) => this.safe(st, x, d + 1))) : 0;
        }
        if (v.k !== 'sym') return 0;
        const known = this.tested(st, v);
        if (known) return known;
        if (v.pure) {
            // text put together from safe text, or limited by the function itself
            if (v.pure.args.every((a) => this.safe(st, a, d + 1) === 2) && this.plain(v.pure.f.node) === 2) return 2;
            return this.result(v.pure.f, v.pure.args, st, d);
        }
        if (v.body || v.trusted) return 2;
        if (v.parts) return this.joined(v.parts.map((x) => this.safe(st, x, d + 1)));
        if (v.encoded) return this.safe(st, v.encoded, d + 1);
        if (v.loop) {
            const used = [...((this.I.loops && this.I.loops.get(v.loop.tag)) || new Map()).values()];
            const ok = (x) => (x.k === 'fn' ? this.plain(x.node) : x.k === 'regex' || x.prim === 'number' ? 2 : this.safe(st, x, d + 1)) === 2;
            return used.length && used.every(ok) && this.plain(v.loop.node) === 2 ? 2 : 0;
        }
        if (v.call) {
            const { name, recv, args } = v.call;
            const own = () => this.safe(st, recv, d + 1);
            if (KEEP.includes(name) || name === 'split' || name === 'filter' || name === 'reverse' || name === 'flat') {
                const o = own();
                return o === 2 || /^(trim|to)/.test(name) ? o : 0;
            }
            if (name === 'replace' || name === 'replaceAll') {
                const o = own();
                const by = args[1];
                const b = by && by.k === 'lit' ? this.literal(String(by.v).replace(/\$(\d|&)/g, '')) : by && by.k === 'fn' ? this.plain(by.node) : 0;
                return Math.min(o, b) === 2 ? 2 : 0;
            }
            if (name === 'join') return args[0] && args[0].k === 'lit' && this.literal(args[0].v) === 2 && own() === 2 ? 2 : 0;
            if (name === 'reduce') return own() === 2 && args[0] && args[0].k === 'fn' && args[1] && args[1].k === 'lit' && this.literal(String(args[1].v)) === 2 ? this.plain(args[0].node) : 0;
            if (name === 'map') return v.cbVals && v.cbVals.length ? Math.min(...v.cbVals.map((x) => this.safe(st, x, d + 1))) : 0;
            if ((name === 'match' || name === 'matchAll') && args[0] && args[0].k === 'regex') return this.level(args[0]);
            if (name === 'exec' && recv && recv.k === 'regex') return this.level(recv);
        }
        for (const n of ['awaited', 'elemOf', 'memberOf', 'derived', 'from']) {
            const f = v[n];
            if (!f || Array.isArray(f)) continue;
            const l = this.safe(st, f, d + 1);
            // a group of a match rather than the match
            const part = n === 'memberOf' && l === 1 && f.call && /^(match|exec)$/.test(f.call.name) && !/\.0$/.test(keyOf(v));
            return part ? 0 : l;
        }
        if (v.arith) return this.joined([v.arith.a, v.arith.b].map((x) => (x ? this.safe(st, x, d + 1) : 0)));
        return 0;
    }
    // safe texts side by side
    joined(ls) {
        const m = Math.min(...ls);
        return m === 1 && ls[0] === 2 ? 1 : m;
    }
    // no separators among the literals a small function works with
    plain(node) {
        let ok = 2;
        const visit = (n) => {
            if (ts.isStringLiteralLike(n) || n.kind === ts.SyntaxKind.TemplateHead || n.kind === ts.SyntaxKind.TemplateMiddle || n.kind === ts.SyntaxKind.TemplateTail) ok = Math.min(ok, this.literal(n.text));
            ts.forEachChild(n, visit);
        };
        visit(node);
        return ok;
    }
    // what a function can return, whatever it is given
    result(f, args, st, d) {
        this.memo = this.memo || new Map();
        if (!this.memo.has(f.node)) {
            this.memo.set(f.node, 0);
            this.texts = this.texts || new Server({ mid: 60, joinText: true, loopText: true });
            const s = this.texts.fresh();
            const given = f.node.parameters.map((p) => Sym(`raw:${p.name.getText()}`, { nonnull: !p.questionToken }));
            const outs = this.texts.run(this.texts.I.modVar(f.mod, f.node.name.text), given, s).filter((o) => !o.rejected && !(o.v.k === 'lit' && (o.v.v === undefined || o.v.v === '')));
            this.memo.set(f.node, Math.min(2, ...outs.map((o) => this.safe(o.s, o.v, d + 1))));
        }
        return this.memo.get(f.node);
    }
    flat(v, out = []) {
        if (v.parts) for (const p of v.parts) this.flat(p, out);
        else if (out.length && v.k === 'lit' && out[out.length - 1].k === 'lit') out.push(Lit(out.pop().v + String(v.v)));
        else out.push(v);
        return out;
    }
    request(x, e, st) {
        this.R.count('requests_checked');
        this.seen.add(e.node);
        const l = e.node ? this.I.loc(e.node).split(':') : [x.mod.rel, 1];
        const bad = (key, message) => this.R.violation({ file: l[0], line: Number(l[1]), key: `${x.name} ${key}`, message: `${x.name}: ${message}` });
        for (const url of e.url.phi || [e.url]) this.address(url, st, bad);
        const o = e.args[1];
        if (o && o.k === 'obj') {
            const get = (n) => (this.I.getMember(st.clone(), o, n, null, {})[0] || {}).v;
            const m = get('method');
            if (m && !(m.k === 'lit' && (m.v === undefined || /^(get|head)$/i.test(m.v)))) bad('method', `a request is sent with ${m.k === 'lit' ? `the method ${m.v}` : 'a method that is not fixed'}`);
            const b = get('body');
            if (b && !(b.k === 'lit' && b.v === undefined)) bad('body', 'a request carries data to the host');
        } else if (o && !(o.k === 'lit' && o.v === undefined)) bad('options', 'a request is sent with options that are not fixed');
    }
    address(url, st, bad) {
        const ps = this.flat(url);
        const head = ps[0].k === 'lit' ? String(ps[0].v) : '';
        const base = BASES.find((b) => head.startsWith(b) && !head.slice(b.length).split('/').includes('..'));
        const shown = ps.map((p) => (p.k === 'lit' ? p.v : '{…}')).join('');
        if (!base) return bad(`host ${shown.slice(0, 80)}`, `a request can leave the project's repository (${shown.slice(0, 120)})`);
        let before = head;
        ps.forEach((p, i) => {
            if (p.k === 'lit') {
                if (i) before += p.v;
                return;
            }
            this.R.count('address_parts_checked');
            if (/process\.env/.test(keyOf(p))) bad('token address', 'a request address contains a value of the environment');
            const next = ps[i + 1] && ps[i + 1].k === 'lit' ? String(ps[i + 1].v) : ps[i + 1] ? 'x' : '';
            const own = /[^/]$/.test(before) || (next && !/^[/?#]/.test(next));
            const ok = this.safe(st, p) > 0 || (p.encoded && (before.includes('?') || own));
            if (!ok) bad(`part ${keyOf(p).slice(0, 60)}`, `the address ${shown.slice(0, 120)} contains text taken as it comes (${this.origin(p)}), which can lead outside the content asked for`);
            before += 'x';
        });
    }
    origin(p) {
        const m = keyOf(p).match(/\b(?:arg|raw):(\w+)/);
        return m ? m[1] : keyOf(p).slice(0, 60);
    }
    value(p) {
        const t = text(p);
        if (CTX.test(t)) return null;
        // structures of the registry itself, as opposed to plain text somebody passed in
        return Sym(`arg:${p.name.getText()}`, { nonnull: !p.questionToken, trusted: /^[A-Z]/.test(t) });
    }
    entries() {
        const owners = new Set([...this.sites].map((n) => n.getSourceFile().fileName));
        const files = this.srv.files.filter((m) => owners.has(m.sf.fileName));
        const direct = (mod) => [...this.I.info(mod).imports.values()].some((i) => {
            const p = L.resolveImport(i.spec, mod.path);
            return p && files.some((f) => f.path === p);
        });
        return this.srv.functions((x) => {
            if (!x.reach.fetch) return false;
            if (files.includes(x.mod)) return !x.node.parameters.length || x.node.parameters.some((p) => CTX.test(text(p)));
            return direct(x.mod);
        });
    }
    follow() {
        this.seen = new Set();
        for (const x of this.entries()) {
            this.R.count('reading_functions');
            this.R.sample(`${x.mod.rel}: ${x.name}`);
            const gone = new Set();
            for (let round = 0; round < 5; round++) {
                this.srv.answer = (key) => (round === 1 ? 'status' : gone.has(key) ? 'gone' : 'ok');
                const st = this.srv.fresh();
                const version = (k) => Sym(k, { nonnull: true, ident: k, trusted: true });
                const args = x.node.parameters.map((p) => this.value(p) || this.I.mkObj(st, [['source', Lit('input')], ['detectedVersion', version('version')], ['warnings', this.I.mkArr(st, [])]]));
                const outs = this.srv.run(x.fn, args, st);
                this.R.count('paths_followed', outs.length);
                const before = gone.size;
                for (const o of outs) {
                    for (const e of o.s.events()) if (e.t === 'request') this.request(x, e, o.s), gone.add(e.key);
                    if (/process\.env/.test(this.show(o.s, o.v))) this.R.violation({ ...this.at(x.mod, x.node), key: `${x.name} token`, message: `${x.name} hands out a value of the environment` });
                }
                if (round && gone.size === before) break;
            }
        }
        for (const n of this.sites) if (!this.seen.has(n)) this.bad(L.loadModule(n.getSourceFile().fileName), n, 'sends a request no analysed function reaches', 'unreached request');
    }
    show(st, v, seen = new Set()) {
        if (!v) return '';
        if (v.k === 'promise') return this.show(st, v.v, seen);
        if (v.phi) return v.phi.map((x) => this.show(st, x, seen)).join('|');
        if (v.k === 'sym' && v.call) return [keyOf(v), ...[v.call.recv, ...v.call.args].filter((x) => x && x.id !== undefined).map((x) => this.show(st, x, seen))].join(',');
        if (v.k === 'sym' && v.jsonOf) return this.show(st, v.jsonOf, seen);
        if (v.k === 'sym' && v.parts) return v.parts.map((x) => this.show(st, x, seen)).join('');
        if (v.id === undefined) return keyOf(v);
        if (seen.has(v.id)) return '';
        seen.add(v.id);
        const c = this.I.getCell(st, v.id) || {};
        return [...(c.props ? c.props.values() : []), ...(c.elems || [])].map((x) => this.show(st, x, seen)).join(',');
    }
    // versions the tools hand on never carry more than a version
    versions() {
        this.srv.answer = () => 'ok';
        const list = tools(this.srv);
        const srv = this.srv;
        srv.opaqueData = 'next_actions';
        srv.opaqueParse = true;
        srv.onLoad = (f, args, st) => {
            f.node.parameters.forEach((p, i) => {
                const v = args[i];
                if (!CTX.test(text(p)) || !v || v.k !== 'obj') return;
                for (const n of ['detectedVersion', 'resolvedRef']) {
                    const m = (this.I.getMember(st.clone(), v, n, null, {})[0] || {}).v;
                    if (!m || (m.k === 'lit' && m.v === undefined)) continue;
                    this.R.count('versions_checked');
                    const ok = this.safe(st, m) > 0;
                    if (!ok) this.R.violation({ ...this.at(f.mod, f.node), key: `${this.I.fnName(f.node)} ${n}`, message: `${this.I.fnName(f.node)} is given a ${n === 'detectedVersion' ? 'version' : 'revision'} that is text taken as it comes (${keyOf(m).slice(0, 80)})` });
                }
            });
        };
        for (const t of list) {
            this.R.count('tools');
            const only = Object.keys(t.input.shape).filter((n) => t.input.shape[n].type === 'enum').slice(0, 1);
            for (const i of inputs(t, only)) {
                const st = srv.fresh();
                for (const o of srv.run(t.handler, [i.make(srv, st)], st)) {
                    this.R.count('tool_paths');
                    if (/process\.env/.test(this.show(o.s, o.v))) this.R.violation({ ...this.at(t.mod, t.node), key: `${t.name} token`, message: `${t.name} answers with a value of the environment` });
                }
            }
        }
        srv.onLoad = null;
        srv.opaqueData = null;
    }
    run() {
        this.lint();
        this.follow();
        this.versions();
        this.R.stats(this.I.stats);
    }
}

function run() {
    const R = report();
    new Effects(R).run();
    R.require('modules', 10);
    R.require('request_sites', 1);
    R.require('requests_checked', 5);
    R.require('address_parts_checked', 5);
    R.require('versions_checked', 1);
    return R.result({
        rule: 'No module uses a module, global or member that writes files, starts processes, evaluates text, opens connections or writes to standard output; every request is a read whose address starts with a fixed base inside the repository and whose variable parts are repository content, encoded inside a segment, or text a pattern on the path limits to characters that cannot leave the segment; no environment value enters an address or a result.',
        explanation: 'Name resolution over every module of the server for effects. Abstract interpretation of every function that builds requests, with plain-text arguments opaque and every requested address also absent, recording each address expression with the path condition; patterns are parsed to the set of characters their matches can have.',
        assumptions: ['Directory entries and file contents come from the repository itself.', 'Structured metadata handed back to the reading functions is metadata they returned.', 'The protocol library writes protocol messages only.'],
    });
}
module.exports = { run };
