'use strict';
// M07: the assistant's built-in tables, rules and suggestions name only what the library has.
const L = require('../lib/load.cjs');
const E = require('../lib/exports.cjs');
const { Server } = require('../lib/mcp.cjs');
const { Lit, U, keyOf } = require('../lib/absint.cjs');
const { report } = require('../lib/report.cjs');
const { ts, fs, path } = L;

const kebab = (n) => n.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();

// ---------------------------------------------------------------- the library
function library() {
    const entry = path.join(L.UI, 'main.ts');
    const ex = E.exportsOf(entry, []);
    const components = new Set([...E.exportsOf(path.join(L.UI, 'components/index.ts'), []).keys()].filter((n) => {
        const e = ex.get(n);
        // parts of another component live in its directory and have no documentation of their own
        return e && e.value && /\.vue$/.test(e.origin || '') && path.basename(path.dirname(e.origin)) === kebab(n);
    }));
    const tokens = new Set();
    for (const f of L.walk(L.UI)) {
        if (!/\.(css|scss|vue|ts)$/.test(f) || /__tests__|\.stories\./.test(f)) continue;
        for (const m of fs.readFileSync(f, 'utf8').matchAll(/--vs-[a-z0-9-]+/g)) tokens.add(m[0]);
    }
    const pkg = JSON.parse(fs.readFileSync(path.join(L.UI, '../package.json'), 'utf8'));
    const sub = new Set(Object.keys(pkg.exports || {}).map((k) => pkg.name + k.slice(1)));
    const dirs = (d) => fs.readdirSync(path.join(L.UI, d), { withFileTypes: true }).filter((e) => e.isDirectory()).map((e) => e.name);
    // members of the options the installer accepts
    const installer = ex.get('createVlossom');
    let options = null;
    if (installer) {
        const mod = L.loadModule(installer.origin);
        const fn = installer.node;
        const p = fn && (fn.parameters || (fn.initializer && fn.initializer.parameters));
        const t = p && p[0] && p[0].type && ts.isTypeReferenceNode(p[0].type) ? p[0].type.typeName.getText(mod.sf) : null;
        if (t) options = interfaceMembers(mod, t);
    }
    return { ex, components, tokens, sub, options, composables: dirs('composables'), directives: dirs('directives'), plugins: dirs('plugins') };
}
function interfaceMembers(mod, name) {
    let d = E.locals(mod).get(name);
    if (!d) return null;
    if (d.imported) {
        const t = d.from && E.exportsOf(d.from, []).get(d.orig);
        if (!t) return null;
        return interfaceMembers(L.loadModule(t.origin), t.orig);
    }
    const n = d.node;
    if (!ts.isInterfaceDeclaration(n)) return null;
    return n.members.filter((m) => m.name).map((m) => ({ name: m.name.getText(mod.sf), required: !m.questionToken }));
}

// ---------------------------------------------------------------- text of the assistant
// pieces of fixed text: {mod, node, text, from, to} with `from`/`to` telling whether something unknown touches the piece
function texts(mod, f) {
    const visit = (n) => {
        if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
        if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) f({ mod, node: n, text: n.text, whole: true });
        else if (ts.isTemplateExpression(n)) {
            f({ mod, node: n.head, text: n.head.text, after: true });
            n.templateSpans.forEach((s, i) => f({ mod, node: s.literal, text: s.literal.text, before: true, after: i < n.templateSpans.length - 1 }));
        } else if (ts.isPropertyAssignment(n) && ts.isIdentifier(n.name)) f({ mod, node: n.name, text: n.name.text, whole: true, key: true });
        ts.forEachChild(n, visit);
    };
    visit(mod.sf);
}
function* words(t, re) {
    for (const m of t.text.matchAll(re)) {
        if (t.before && m.index === 0) continue;
        if (t.after && m.index + m[0].length === t.text.length) continue;
        yield m;
    }
}

function run() {
    const R = report();
    const lib = library();
    const srv = new Server({ decide: (v) => (v.k === 'sym' && /^global:process\.env/.test(v.key) ? false : undefined) });
    const bad = (mod, node, key, message) => R.violation({ file: mod.rel, line: L.lineOf(mod, node.getStart(mod.sf)), key, message });
    R.count('library_components', lib.components.size);
    R.count('library_exports', lib.ex.size);

    // ---- what the server offers
    const tools = new Set(), uris = [];
    for (const mod of srv.files) {
        const visit = (n) => {
            if (ts.isCallExpression(n)) {
                const callee = n.expression.getText(mod.sf);
                if (/registerStructuredTool$|\.(registerTool|tool)$/.test(callee)) for (const a of n.arguments) if (ts.isStringLiteral(a) && /^[a-z]+(_[a-z]+)+$/.test(a.text)) tools.add(a.text);
                if (/\.(registerResource|resource)$/.test(callee)) {
                    const u = n.arguments[1];
                    const lit = u && (ts.isStringLiteralLike(u) ? u : ts.isNewExpression(u) && u.arguments && ts.isStringLiteralLike(u.arguments[0]) ? u.arguments[0] : null);
                    if (lit) uris.push(lit.text);
                }
            }
            ts.forEachChild(n, visit);
        };
        visit(mod.sf);
    }
    R.count('tools_offered', tools.size);
    R.count('resources_offered', uris.length);
    const offered = (uri) => uris.some((u) => {
        const a = u.split('/'), b = uri.split('/');
        return a.length === b.length && a.every((x, i) => /^\{.*\}$/.test(x) || x === b[i]);
    });

    // ---- names in text
    for (const mod of srv.files) {
        texts(mod, (t) => {
            R.count('texts_read');
            for (const m of words(t, /(?<![\w.])Vs[A-Z][A-Za-z0-9]*/g)) {
                R.count('library_names_checked');
                if (!lib.ex.has(m[0])) bad(mod, t.node, `name:${m[0]}`, `${m[0]} is not exported by the library`);
            }
            if (!t.key)
                for (const m of words(t, /(?<![\w.-])vs-[a-z0-9-]*[a-z0-9]/g)) {
                    if (t.whole && m[0].length === t.text.length && /^vs-$/.test(t.text)) continue;
                    R.count('tags_checked');
                    if (![...lib.components].some((c) => kebab(c) === m[0])) bad(mod, t.node, `tag:${m[0]}`, `<${m[0]}> is not a component of the library`);
                }
            for (const m of words(t, /--vs-[a-z0-9-]*[a-z0-9]/g)) {
                R.count('tokens_checked');
                if (!lib.tokens.has(m[0])) bad(mod, t.node, `token:${m[0]}`, `the library has no ${m[0]}`);
            }
            for (const m of words(t, /(?<![\w$])\w*_vlossom_?\w*/g)) {
                if (!/^[a-z]+(_[a-z]+)+$/.test(m[0])) continue;
                R.count('tool_names_checked');
                if (!tools.has(m[0])) bad(mod, t.node, `tool:${m[0]}`, `the server offers no tool ${m[0]}`);
            }
            for (const m of t.text.matchAll(/import\s*(?:\{([^}]*)\}\s*from\s*)?['"](vlossom(?:\/[^'"]*)?)['"]/g)) {
                if (t.after && !m[1] && m.index + m[0].length === t.text.length) continue;
                R.count('sample_imports_checked');
                if (!lib.sub.has(m[2])) bad(mod, t.node, `import:${m[2]}`, `${m[2]} is not an entry point of the package`);
                for (const n of (m[1] || '').split(',').map((x) => x.trim().split(/\s+as\s+/)[0]).filter(Boolean))
                    if (!lib.ex.has(n) || !lib.ex.get(n).value) bad(mod, t.node, `import:${n}`, `sample code imports ${n}, which the library does not export`);
            }
            for (const m of words(t, /(?<![\w.])(create[A-Z]\w*|use[A-Z]\w*)(?=\()/g)) {
                R.count('calls_in_samples_checked');
                if (!lib.ex.has(m[1]) && !['createApp', 'useTemplateRef'].includes(m[1])) bad(mod, t.node, `call:${m[1]}`, `sample code calls ${m[1]}, which the library does not export`);
            }
            for (const m of t.text.matchAll(/createVlossom\(\{([^]*?)\}\)/g)) {
                // option names at the first level of the sample
                let depth = 0;
                const flat = [...m[1]].map((c) => ('{[('.includes(c) ? (depth++, ' ') : '}])'.includes(c) ? (depth--, ' ') : depth ? ' ' : c)).join('');
                for (const k of flat.matchAll(/(?:^|[,\s])([A-Za-z]+)\s*:/g)) {
                    R.count('sample_options_checked');
                    if (lib.options && !lib.options.some((o) => o.name === k[1])) bad(mod, t.node, `option:${k[1]}`, `sample code passes ${k[1]}, which createVlossom does not take`);
                }
            }
        });
    }

    // ---- addresses of resources that results point to
    for (const mod of srv.files) {
        const seen = new Set();
        const visit = (n) => {
            if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && /^vlossom:\/\//.test(n.text)) {
                R.count('resource_addresses_checked');
                if (!uris.includes(n.text) && !offered(n.text)) bad(mod, n, `uri:${n.text}`, `${n.text} is not a resource the server offers`);
            } else if (ts.isTemplateExpression(n) && /^vlossom:\/\//.test(n.head.text)) {
                R.count('resource_addresses_checked');
                const shape = n.head.text + n.templateSpans.map((s) => '\u0001' + s.literal.text).join('');
                const a = shape.split('/');
                const ok = uris.some((u) => {
                    const b = u.split('/');
                    return a.length === b.length && a.every((x, i) => x === b[i] || (x === '\u0001' && /^\{.*\}$/.test(b[i])));
                });
                const k = shape.replace(/\u0001/g, '{}');
                if (!ok && !seen.has(k + n.getStart(mod.sf))) bad(mod, n, `uri:${k}:${ownerName(n)}`, `${ownerName(n)} points to ${k}, which is not a resource the server offers`);
            }
            ts.forEachChild(n, visit);
        };
        visit(mod.sf);
    }

    // ---- tables keyed by or listing components
    const table = (mod, name) => {
        const d = srv.I.info(mod).decls.get(name);
        return d && d.kind === 'var' && d.node.initializer ? unwrap(d.node.initializer) : null;
    };
    const st = srv.fresh();
    for (const mod of srv.files) {
        for (const [name, d] of srv.I.info(mod).decls) {
            if (d.kind !== 'var') continue;
            const init = table(mod, name);
            if (!init) continue;
            // a table with an entry per component
            if (ts.isObjectLiteralExpression(init)) {
                const keys = init.properties.filter((p) => p.name).map((p) => (ts.isStringLiteralLike(p.name) ? p.name.text : p.name.getText(mod.sf)));
                const comps = keys.filter((k) => /^Vs[A-Z]/.test(k));
                if (comps.length > 10 && comps.length === keys.length) {
                    R.count('component_tables');
                    for (const c of lib.components) {
                        R.count('completeness_obligations');
                        if (!keys.includes(c)) bad(mod, d.node, `missing:${name}:${c}`, `${name} has no entry for ${c}`);
                    }
                    const dup = keys.find((k, i) => keys.indexOf(k) !== i);
                    if (dup) bad(mod, d.node, `twice:${name}:${dup}`, `${name} describes ${dup} twice`);
                }
                // search terms that stand for components
                const lists = init.properties.filter((p) => ts.isPropertyAssignment(p) && ts.isArrayLiteralExpression(p.initializer) && p.initializer.elements.every(ts.isStringLiteralLike));
                if (!comps.length && lists.length > 10 && lists.length === keys.length) {
                    R.count('synonym_tables');
                    const parts = new Set([...lib.components].map((c) => kebab(c).replace(/^vs-/, '')));
                    for (const p of lists) {
                        R.count('synonyms_checked');
                        const terms = p.initializer.elements.map((e) => e.text);
                        if (!terms.some((t) => parts.has(t))) bad(mod, p, `synonym:${p.name.getText(mod.sf)}`, `no term of ${p.name.getText(mod.sf)} names a component`);
                        for (const e of p.initializer.elements)
                            if (e.text.includes('-') && !parts.has(e.text) && !lib.composables.includes(e.text) && !lib.directives.includes(e.text) && !lib.plugins.includes(e.text))
                                bad(mod, e, `term:${e.text}`, `${e.text} names nothing in the library`);
                    }
                }
            }
            // a table of options
            if (ts.isArrayLiteralExpression(init) && d.node.type && /Option/.test(d.node.type.getText(mod.sf)) && lib.options) {
                R.count('option_tables');
                const rows = init.elements.filter(ts.isObjectLiteralExpression).map((o) => ({ node: o, get: (k) => (o.properties.find((p) => p.name && p.name.getText(mod.sf) === k) || {}).initializer }));
                const names = rows.map((r) => r.get('name') && r.get('name').text);
                for (const o of lib.options) {
                    R.count('completeness_obligations');
                    const i = names.indexOf(o.name);
                    if (i < 0) bad(mod, d.node, `missing:${name}:${o.name}`, `${name} does not describe the option ${o.name}`);
                    else {
                        const q = rows[i].get('required');
                        if (q && (q.kind === ts.SyntaxKind.TrueKeyword) !== o.required) bad(mod, rows[i].node, `required:${o.name}`, `${name} says ${o.name} is ${o.required ? 'optional' : 'required'}`);
                    }
                }
                rows.forEach((r, i) => {
                    if (!lib.options.some((o) => o.name === names[i])) bad(mod, r.node, `option:${names[i]}`, `createVlossom takes no option ${names[i]}`);
                });
            }
        }
    }

    // ---- where the registry reads: the addresses computed for every component exist in this repository
    const addresses = (fnName, args) => {
        const x = srv.functions((f) => f.name === fnName)[0];
        if (!x) return [];
        const s = srv.fresh();
        const ctx = srv.I.mkObj(s, [['source', Lit('unknown')], ['detectedVersion', U], ['requestedVersion', U], ['resolvedRef', Lit('main')], ['warnings', srv.I.mkArr(s, [])]]);
        const outs = srv.run(x.fn, args(s, ctx), s);
        return [...new Map(outs.flatMap((o) => o.s.events().filter((e) => e.t === 'request')).map((e) => [e.key, e])).values()].map((e) => ({ x, e }));
    };
    const inRepo = (url) => {
        const t = JSON.parse(url);
        const raw = t.match(/^https:\/\/raw\.githubusercontent\.com\/[^/]+\/[^/]+\/main\/(.*)$/);
        const dir = t.match(/\/contents\/([^?]*)\?ref=main$/);
        if (raw) return { p: raw[1], ok: fs.existsSync(path.join(L.REPO, raw[1])) && fs.statSync(path.join(L.REPO, raw[1])).isFile() };
        if (dir) return { p: dir[1], ok: fs.existsSync(path.join(L.REPO, dir[1])) && fs.statSync(path.join(L.REPO, dir[1])).isDirectory() };
        return null;
    };
    const need = (list, label) => {
        for (const { x, e } of list) {
            if (e.url.k !== 'lit') continue;
            const r = inRepo(e.key);
            if (!r) continue;
            R.count('addresses_checked');
            if (!r.ok) R.violation({ file: x.mod.rel, line: L.lineOf(x.mod, x.node.getStart(x.mod.sf)), key: `address:${label}:${r.p}`, message: `${x.name} reads ${r.p}${label ? ` for ${label}` : ''}, which does not exist in the repository` });
        }
    };
    for (const x of srv.functions((f) => f.reach.fetch && f.node.parameters.length === 1 && /VersionContext/.test(f.node.parameters[0].getText()))) need(addresses(x.name, (s, ctx) => [ctx]), '');
    for (const c of lib.components) {
        const a = addresses('getComponentMeta', (s, ctx) => [Lit(c), ctx]);
        if (!a.some(({ e }) => e.url.k === 'lit')) {
            const x = srv.functions((f) => f.name === 'getComponentMeta')[0];
            if (x) R.violation({ file: x.mod.rel, line: 1, key: `unread:${c}`, message: `${c} cannot be looked up by its name` });
        }
        need(a, c);
        need(addresses('fetchComponentSource', (s, ctx) => [srv.I.mkObj(s, [['name', Lit(c)], ['kebabName', Lit(kebab(c))]]), ctx]), c);
    }
    R.require('library_components', 30);
    R.require('tools_offered', 2);
    R.require('resources_offered', 3);
    R.require('library_names_checked', 100);
    R.require('addresses_checked', 100);
    R.stats(srv.I.stats);
    return R.result({
        rule: 'Every name of a component, type, tag, style token, option, tool, resource, entry point or sample import in the fixed text of the assistant is one the library (or the server) has; per-component and option tables have an entry for everything the library has; and the addresses computed for every component and listing exist in this repository.',
        explanation: 'The names are read from the syntax trees of both packages: the library\'s exports followed through re-exports, its style sheets, the members of the installer\'s options, against all string and template text and object keys of the assistant. Addresses are obtained by interpreting the registry\'s functions with each component\'s name.',
        assumptions: ['Text next to an interpolation is judged only as far as it is fixed.'],
    });
}
function unwrap(n) {
    while (ts.isAsExpression(n) || ts.isSatisfiesExpression(n) || ts.isParenthesizedExpression(n)) n = n.expression;
    return n;
}
function ownerName(n) {
    for (; n; n = n.parent) if ((ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n)) && n.name) return n.name.text;
    return 'module';
}
module.exports = { run };
