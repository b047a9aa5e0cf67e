'use strict';
// C10: the published surface is complete and consistent.
const L = require('../lib/load.cjs');
const { ts, path, UI } = L;
const { World, compDef, optionProp, pascal } = require('../lib/component.cjs');
const { Sim } = require('../lib/effects.cjs');
const { St } = require('../lib/absint.cjs');
const { exportsOf, locals, reachable } = require('../lib/exports.cjs');
const { exposed } = require('./C12.cjs');
const { report } = require('../lib/report.cjs');

exports.run = () => {
    const R = report();
    const entry = path.join(UI, 'main.ts');
    const bad = [];
    const pub = exportsOf(entry, bad);
    const V = (file, line, key, message) => R.violation({ file: L.rel(file), line, key, message });
    for (const b of bad) V(b.mod.path, L.lineOf(b.mod, b.node.getStart(b.mod.sf)), `dangling|${b.mod.rel}|${b.name}`, `re-exports ${b.name}, which does not exist`);
    R.count('public_names', pub.size);
    const files = L.sourceFiles(UI);
    const I = new World({}).I;
    const nameOf = new Map(); // component file -> declared name
    for (const f of files.filter((x) => x.endsWith('.vue'))) nameOf.set(f, compDef(I, L.loadModule(f)).name || path.basename(f, '.vue'));

    // the sources that list components
    const fileOf = (mod, name, what, node) => {
        const d = locals(mod).get(name);
        if (!d || !d.from || d.orig === '*') return null;
        const e = exportsOf(d.from).get(d.orig);
        return e ? e.origin : null;
    };
    const lists = { globals: new Map(), map: new Map(), exports: new Map(), names: new Map() };
    for (const f of files.filter((x) => x.endsWith('.ts'))) {
        const mod = L.loadModule(f);
        for (const s of mod.sf.statements)
            if (ts.isModuleDeclaration(s) && ts.isStringLiteral(s.name) && s.name.text === 'vue' && s.body)
                for (const i of s.body.statements)
                    if (ts.isInterfaceDeclaration(i) && i.name.text === 'GlobalComponents')
                        for (const m of i.members) {
                            const n = m.name.text;
                            const t = m.type && ts.isTypeQueryNode(m.type) ? m.type.exprName.getText(mod.sf) : null;
                            lists.globals.set(n, { file: f, line: L.lineOf(mod, m.getStart(mod.sf)), target: t && fileOf(mod, t), mod });
                        }
    }
    // the component map and name list are found by what they hold, through the public entry
    const mapExport = [...pub].filter(([, e]) => e.value && e.node && ts.isVariableDeclaration(e.node) && e.node.initializer);
    for (const [n, e] of mapExport) {
        let init = e.node.initializer;
        while (ts.isAsExpression(init) || ts.isSatisfiesExpression(init) || ts.isParenthesizedExpression(init)) init = init.expression;
        if (!ts.isObjectLiteralExpression(init)) continue;
        const mod = L.loadModule(e.origin);
        const ents = [];
        for (const p of init.properties) {
            if (!p.name) continue;
            const v = ts.isShorthandPropertyAssignment(p) ? p.name.text : ts.isPropertyAssignment(p) && ts.isIdentifier(p.initializer) ? p.initializer.text : null;
            const lazy = ts.isPropertyAssignment(p) && !v && /import\(\s*['"]([^'"]+)['"]/.exec(p.initializer.getText(mod.sf));
            ents.push([p.name.text, { file: e.origin, line: L.lineOf(mod, p.getStart(mod.sf)), target: v ? fileOf(mod, v) : lazy ? L.resolveImport(lazy[1], e.origin) : null }]);
        }
        const comps = ents.filter(([, x]) => x.target && x.target.endsWith('.vue')).length;
        if (comps >= 10 && comps * 2 > ents.length) for (const [k, x] of ents) lists.map.set(k, x);
    }
    for (const [n, e] of pub) if (e.value && e.origin.endsWith('.vue') && e.orig === 'default') lists.exports.set(n, { file: entry, line: 1, target: e.origin });
    let nameList = null;
    for (const [n, e] of pub)
        if (e.node && ts.isEnumDeclaration(e.node)) {
            const mod = L.loadModule(e.origin);
            const ms = e.node.members.map((m) => [m.name.text, { file: e.origin, line: L.lineOf(mod, m.getStart(mod.sf)), value: m.initializer && ts.isStringLiteral(m.initializer) ? m.initializer.text : null }]);
            if (ms.filter(([k]) => lists.map.has(k) || lists.exports.has(k)).length * 2 > ms.length) {
                nameList = e.node;
                for (const [k, x] of ms) lists.names.set(k, x);
            }
        }
    // plugins are members of the published framework object; their names may be styled too
    const plugins = new Map();
    for (const f of files.filter((x) => x.startsWith(path.join(UI, 'plugins') + path.sep) && x.endsWith('.ts')))
        for (const [n, e] of exportsOf(f)) {
            const m = /^create(\w+)Plugin$/.exec(n);
            if (m && e.value && e.origin === f) plugins.set(m[1], { file: f, node: e.node });
        }
    for (const [k, l] of Object.entries(lists)) R.count(`listed_${k}`, l.size);
    R.count('plugins', plugins.size);
    const all = new Set(Object.values(lists).flatMap((l) => [...l.keys()]));
    const what = { globals: 'the template component types', map: 'the component map', exports: 'the named exports', names: 'the component name list' };
    for (const n of all) {
        R.count('components_compared');
        const first = Object.values(lists).map((l) => l.get(n)).find(Boolean);
        const isPlugin = plugins.has(n.replace(/^Vs/, '')) && !lists.map.has(n) && !lists.exports.has(n) && !lists.globals.has(n);
        if (isPlugin) continue;
        for (const [k, l] of Object.entries(lists)) {
            const x = l.get(n);
            if (!x) {
                V(first.file, first.line, `missing|${k}|${n}`, `${n} is published but missing from ${what[k]}`);
                continue;
            }
            if (k === 'names') {
                if (x.value !== n) V(x.file, x.line, `name|${n}`, `the component name list maps ${n} to ${x.value}`);
                continue;
            }
            if (!x.target || !nameOf.has(x.target)) V(x.file, x.line, `nowhere|${k}|${n}`, `${n} in ${what[k]} does not lead to a component`);
            else if (nameOf.get(x.target) !== n) V(x.file, x.line, `mismatch|${k}|${n}`, `${n} in ${what[k]} leads to ${nameOf.get(x.target)} (${L.rel(x.target)})`);
        }
        const g = lists.globals.get(n);
        // a template type only reaches consumers when its module is part of the public entry
        if (g && !reachable(entry).has(g.file)) V(g.file, g.line, `unreachable types|${n}`, `the types of ${n} are declared in a module the public entry does not include`);
    }
    // every component of the library is either published or used by a published one
    const used = new Set();
    const follow = (f) => {
        if (used.has(f)) return;
        used.add(f);
        for (const g of reachable(f)) if (g.endsWith('.vue')) follow(g);
    };
    for (const l of [lists.map, lists.exports]) for (const x of l.values()) if (x.target) follow(x.target);
    for (const g of reachable(entry)) if (!g.endsWith('.vue') && !/components[\\/]/.test(g)) for (const h of reachable(g)) if (h.endsWith('.vue')) used.add(h);
    for (const [f, n] of nameOf) if (!used.has(f)) V(f, 1, `orphan|${n}`, `${n} is neither published nor used by a published component`);

    // public types
    for (const [n, g] of lists.globals) {
        if (!g.target) continue;
        const mod = L.loadModule(g.file);
        const def = compDef(I, L.loadModule(g.target));
        for (const [t, e] of exportsOf(g.file)) {
            if (!e.type || !t.startsWith('Vs')) continue;
            R.count('component_types');
            const q = pub.get(t);
            if (!q || q.origin !== e.origin) V(g.file, g.line, `type|${t}`, `the public type ${t} of ${n} is not reachable from the library entry`);
        }
        const refT = exportsOf(g.file).get(n + 'Ref');
        if (!refT) V(g.file, g.line, `ref|${n}`, `${n} has no public instance type`);
        else {
            // members the instance type promises exist on the instance
            let names = null;
            const sim = new Sim({ onSetup: (inst, outs) => { if (!inst.parent && names === null) names = exposed(sim.I, outs.filter((o) => !o.c)); } });
            sim.world.mount(L.loadModule(g.target), new St(), {});
            const visit = (mod2, node, seen) => {
                if (seen.has(node)) return;
                seen.add(node);
                for (const m of node.members || []) {
                    if (!m.name) continue;
                    const k = m.name.text;
                    R.count('instance_members');
                    const ok = !names || names.has(k) || def.props.has(k) || exposesCall(L.loadModule(g.target), k) || ['data', 'computed', 'methods'].some((o) => {
                        const p = optionProp(L.loadModule(g.target), o);
                        return p && p.initializer && (p.initializer.properties || []).some((q) => q.name && q.name.text === k);
                    });
                    if (!ok) V(g.file, L.lineOf(mod2, m.getStart(mod2.sf)), `member|${n}.${k}`, `the instance type of ${n} promises ${k}, which the component does not expose`);
                }
                for (const h of node.heritageClauses || [])
                    for (const t of h.types) {
                        if (!ts.isIdentifier(t.expression)) continue;
                        const d = locals(mod2).get(t.expression.text);
                        const e = d && d.imported ? d.from && exportsOf(d.from).get(d.orig) : d && { origin: mod2.path, node: d.node };
                        if (e && e.node && ts.isInterfaceDeclaration(e.node)) visit(L.loadModule(e.origin), e.node, seen);
                    }
            };
            if (refT.node && ts.isInterfaceDeclaration(refT.node)) visit(L.loadModule(refT.origin), refT.node, new Set());
        }
        if (def.props.has('styleSet')) {
            R.count('style_set_types');
            const st = styleTypeOf(def, g.target);
            if (!st) V(g.file, g.line, `style type|${n}`, `${n} accepts a style set but its type does not name one`);
            else if (!st.pub(pub)) V(g.file, g.line, `style type|${n}`, `the style set type ${st.name} accepted by ${n} is not reachable from the library entry`);
        }
    }
    // named types inside public props
    for (const [n, x] of lists.exports) {
        const mod = L.loadModule(x.target);
        const visit = (node) => {
            if (ts.isTypeReferenceNode(node) && ts.isIdentifier(node.typeName) && node.typeName.text === 'PropType')
                for (const r of typeRefs(node)) {
                    const d = locals(mod).get(r);
                    if (!d) continue;
                    R.count('prop_types');
                    const e = d.imported ? d.from && exportsOf(d.from).get(d.orig) : { origin: mod.path, node: d.node, orig: r };
                    if (!e || !e.node || e.origin.endsWith('.vue')) {
                        if (d.imported) continue;
                        if (!d.imported) V(x.target, L.lineOf(mod, node.getStart(mod.sf)), `prop type|${n}|${r}`, `a prop of ${n} is typed by ${r}, which is not published`);
                        continue;
                    }
                    if (![...pub.values()].some((q) => q.type && q.origin === e.origin && q.orig === e.orig)) V(x.target, L.lineOf(mod, node.getStart(mod.sf)), `prop type|${n}|${r}`, `a prop of ${n} is typed by ${r}, which is not reachable from the library entry`);
                }
            ts.forEachChild(node, visit);
        };
        const p = optionProp(mod, 'props');
        if (p) visit(p);
    }
    // composables and directives are published under their names
    const isDirective = (e, mod) => {
        const n = e.node;
        if (!ts.isVariableDeclaration(n)) return false;
        if (n.type && /^(Function|Object)?Directive\b/.test(n.type.getText(mod.sf))) return true;
        let i = n.initializer;
        while (i && (ts.isAsExpression(i) || ts.isSatisfiesExpression(i))) i = i.expression;
        return !!i && ts.isObjectLiteralExpression(i) && i.properties.some((p) => p.name && ['mounted', 'beforeMount', 'updated', 'unmounted', 'created'].includes(p.name.text));
    };
    const kinds = { composables: (n) => /^use[A-Z]/.test(n), directives: (n, e, mod) => isDirective(e, mod) };
    for (const [dir, is] of Object.entries(kinds)) {
        const root = path.join(UI, dir) + path.sep;
        for (const f of files.filter((x) => x.startsWith(root)))
            for (const [n, e] of exportsOf(f)) {
                const mod = L.loadModule(f);
                if (e.origin !== f || !e.value || !is(n, e, mod)) continue;
                R.count(dir);
                const q = pub.get(n);
                if (!q || q.origin !== f || !q.value) V(f, L.lineOf(mod, e.node.getStart(mod.sf)), `unpublished|${dir}|${n}`, `${n} (${dir}) is not reachable from the library entry under its name`);
            }
    }
    // plugins: each factory's product is a public member of the framework object
    const fw = [...pub.values()].find((e) => e.node && ts.isClassDeclaration(e.node) && e.value && e.origin.includes(`${path.sep}framework${path.sep}`));
    if (fw) {
        const members = new Set(fw.node.members.filter((m) => m.name && !(m.modifiers || []).some((k) => k.kind === ts.SyntaxKind.PrivateKeyword)).map((m) => m.name.text));
        for (const [n, p] of plugins) {
            const k = n[0].toLowerCase() + n.slice(1);
            if (!members.has(k)) V(p.file, 1, `plugin|${k}`, `the ${k} plugin is not reachable as a member of the framework object`);
        }
    }
    R.require('listed_map', 30);
    R.require('listed_names', 30);
    R.require('listed_exports', 30);
    R.require('listed_globals', 30);
    R.require('composables', 5);
    R.require('plugins', 3);
    return R.result({
        rule: 'The component name list, component map, named exports and template type declarations list the same names, each leading to the component of that name; the types module of each published component and every type named by a public prop is reachable from the library entry; each component has a public instance type whose members the component exposes; every composable and directive is published under its name; every plugin is a member of the framework object.',
        explanation: 'Export resolution over the module graph from the library entry, compared across every list that names components.',
        assumptions: ['plugin names may appear in the component name list because their dialogs can be styled by name'],
    });
};

function exposesCall(mod, k) {
    let found = false;
    const visit = (n) => {
        if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'expose' && n.arguments[0] && ts.isObjectLiteralExpression(n.arguments[0])) found = found || n.arguments[0].properties.some((p) => p.name && p.name.text === k);
        ts.forEachChild(n, visit);
    };
    visit(mod.sf);
    return found;
}
function typeRefs(node) {
    const out = [];
    const visit = (n) => {
        if (ts.isTypeReferenceNode(n)) {
            const t = ts.isIdentifier(n.typeName) ? n.typeName.text : null;
            if (t && t !== 'PropType') out.push(t);
        }
        ts.forEachChild(n, visit);
    };
    visit(node);
    return out;
}
// the style-set type a component's props name: get<X>(...)/getStyleSetProps<X>() or PropType<string | X>
function styleTypeOf(def, file) {
    const mod = L.loadModule(file);
    const p = optionProp(mod, 'props');
    const cands = [];
    const visit = (n) => {
        if (ts.isTypeReferenceNode(n) && ts.isIdentifier(n.typeName) && /StyleSet/.test(n.typeName.text)) cands.push(n.typeName.text);
        ts.forEachChild(n, visit);
    };
    visit(p || mod.sf);
    if (!cands.length) visit(mod.sf);
    if (!cands.length) return null;
    const d = locals(mod).get(cands[0]);
    const e = d && (d.imported ? d.from && exportsOf(d.from).get(d.orig) : { origin: file, orig: cands[0] });
    return { name: cands[0], pub: (pub) => !!e && [...pub.values()].some((q) => q.type && q.origin === e.origin && q.orig === e.orig) };
}
