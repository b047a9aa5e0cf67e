'use strict';
// Names a module makes available, followed through re-exports.
const L = require('./load.cjs');
const { ts } = L;

const has = (n, k) => !!(n.modifiers && n.modifiers.some((m) => m.kind === k));

// local top-level declarations and imports: name -> {type: bool, value: bool, node, from?: path, orig?: name}
function locals(mod) {
    if (mod._locals) return mod._locals;
    const m = new Map();
    const put = (name, d) => {
        const p = m.get(name);
        m.set(name, p ? { ...p, ...d, type: p.type || d.type, value: p.value || d.value } : d);
    };
    const bind = (b, node) => {
        if (ts.isIdentifier(b)) put(b.text, { value: true, node });
        else for (const e of b.elements) if (e.name) bind(e.name, node);
    };
    for (const s of mod.sf.statements) {
        if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) bind(d.name, d);
        else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)) && s.name) put(s.name.text, { value: true, type: ts.isClassDeclaration(s), node: s });
        else if (ts.isEnumDeclaration(s)) put(s.name.text, { value: true, type: true, node: s });
        else if (ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) put(s.name.text, { type: true, node: s });
        else if (ts.isImportDeclaration(s) && s.importClause) {
            const from = L.resolveImport(s.moduleSpecifier.text, mod.path);
            const c = s.importClause;
            const base = { from, spec: s.moduleSpecifier.text, node: s, value: !c.isTypeOnly, type: true, imported: true };
            if (c.name) put(c.name.text, { ...base, orig: 'default' });
            if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) put(c.namedBindings.name.text, { ...base, orig: '*' });
            else if (c.namedBindings) for (const e of c.namedBindings.elements) put(e.name.text, { ...base, value: base.value && !e.isTypeOnly, orig: (e.propertyName || e.name).text });
        }
    }
    return (mod._locals = m);
}

// exported name -> {type, value, origin: path, orig: name, node}; `bad` collects re-exports that name nothing
function exportsOf(p, bad, seen = new Set()) {
    const mod = L.loadModule(p);
    if (mod._exports) return mod._exports;
    if (seen.has(p)) return new Map();
    seen.add(p);
    const out = new Map();
    const put = (name, e, star) => {
        if (!e.type && !e.value) return;
        const q = out.get(name);
        // names exported explicitly win over `export *`
        if (q && q.star && !star) return out.set(name, { ...e, star: false });
        if (q && !q.star && star) return;
        out.set(name, q ? (e.value && !q.value ? { ...e, type: q.type || e.type, star } : { ...q, type: q.type || e.type }) : { ...e, star: !!star });
    };
    const own = locals(mod);
    const resolve = (name, typeOnly) => {
        const d = own.get(name);
        if (!d) return null;
        if (d.imported) {
            if (!d.from) return { type: true, value: d.value && !typeOnly, origin: d.spec, orig: d.orig, node: d.node };
            if (d.orig === '*') return { type: true, value: d.value && !typeOnly, origin: d.from, orig: '*', node: d.node };
            const t = exportsOf(d.from, bad, seen).get(d.orig);
            return t ? { ...t, value: t.value && d.value && !typeOnly } : null;
        }
        return { type: !!d.type || (typeOnly && d.value), value: !!d.value && !typeOnly, origin: p, orig: name, node: d.node };
    };
    if (mod.kind === 'vue') put('default', { type: true, value: true, origin: p, orig: 'default', node: mod.sf });
    for (const s of mod.sf.statements) {
        if (ts.isExportDeclaration(s)) {
            const from = s.moduleSpecifier ? L.resolveImport(s.moduleSpecifier.text, p) : null;
            if (s.moduleSpecifier && !from) {
                if (s.moduleSpecifier.text.startsWith('.') || s.moduleSpecifier.text.startsWith('@/')) bad && bad.push({ mod, node: s, name: s.moduleSpecifier.text });
                continue;
            }
            if (!s.exportClause) {
                for (const [n, e] of exportsOf(from, bad, seen)) if (n !== 'default') put(n, s.isTypeOnly ? { ...e, value: false } : e, true);
            } else if (ts.isNamespaceExport(s.exportClause)) put(s.exportClause.name.text, { type: true, value: !s.isTypeOnly, origin: from, orig: '*', node: s });
            else
                for (const e of s.exportClause.elements) {
                    const src = (e.propertyName || e.name).text;
                    const typeOnly = s.isTypeOnly || e.isTypeOnly;
                    const t = from ? exportsOf(from, bad, seen).get(src) : resolve(src, typeOnly);
                    if (!t) bad && bad.push({ mod, node: s, name: src });
                    else put(e.name.text, typeOnly ? { ...t, value: false } : t);
                }
        } else if (ts.isExportAssignment(s)) put('default', { type: true, value: true, origin: p, orig: 'default', node: s });
        else if (has(s, ts.SyntaxKind.ExportKeyword)) {
            const names = [];
            if (ts.isVariableStatement(s)) {
                const bind = (b) => (ts.isIdentifier(b) ? names.push(b.text) : b.elements.forEach((e) => e.name && bind(e.name)));
                s.declarationList.declarations.forEach((d) => bind(d.name));
            } else if (s.name && s.name.text) names.push(s.name.text);
            for (const n of names) put(has(s, ts.SyntaxKind.DefaultKeyword) ? 'default' : n, resolve(n, false) || { type: true, value: true, origin: p, orig: n, node: s });
        }
    }
    mod._exports = out;
    return out;
}
// modules loaded for their types by a module (transitively through re-exports and imports)
function reachable(p, out = new Set()) {
    if (out.has(p)) return out;
    out.add(p);
    const mod = L.loadModule(p);
    for (const s of mod.sf.statements)
        if ((ts.isImportDeclaration(s) || ts.isExportDeclaration(s)) && s.moduleSpecifier) {
            const f = L.resolveImport(s.moduleSpecifier.text, p);
            if (f) reachable(f, out);
        }
    return out;
}
module.exports = { exportsOf, locals, reachable };
