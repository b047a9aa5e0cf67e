'use strict';
// Source loading: TypeScript files, Vue single-file components (script + template) and stylesheets of /repo.
const fs = require('fs');
const path = require('path');
const vreq = require('module').createRequire(path.join(__dirname, '..', 'vendor', 'x.js'));
const ts = vreq('typescript');
const vdom = vreq('@vue/compiler-dom');
const postcss = vreq('postcss');

const REPO = process.env.VERIF_REPO || '/repo';
const UI = path.join(REPO, 'packages/vlossom/src');
const MCP = path.join(REPO, 'packages/vlossom-mcp/src');

const modules = new Map();

function rel(p) {
    return path.relative(REPO, p);
}

function walk(dir, out = []) {
    if (!fs.existsSync(dir)) return out;
    for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
        const p = path.join(dir, e.name);
        if (e.isDirectory()) {
            if (['node_modules', '__tests__', '__stories__', 'storybook', '__mocks__'].includes(e.name)) continue;
            walk(p, out);
        } else out.push(p);
    }
    return out;
}

function isSource(p) {
    return (/\.ts$/.test(p) || /\.vue$/.test(p)) && !/\.(test|spec|stories|d|chromatic\.stories)\.ts$/.test(p);
}

function sourceFiles(root) {
    return walk(root).filter(isSource);
}

function loadModule(p) {
    let m = modules.get(p);
    if (m) return m;
    const text = fs.readFileSync(p, 'utf8');
    m = { path: p, rel: rel(p), text, kind: p.endsWith('.vue') ? 'vue' : 'ts' };
    let code = text;
    if (m.kind === 'vue') {
        const ast = vdom.parse(text, { parseMode: 'sfc', comments: false });
        m.templateNode = ast.children.find((c) => c.type === 1 && c.tag === 'template') || null;
        const scripts = ast.children.filter((c) => c.type === 1 && c.tag === 'script');
        m.styles = ast.children.filter((c) => c.type === 1 && c.tag === 'style');
        m.scriptSetup = scripts.some((s) => s.props.some((a) => a.name === 'setup'));
        if (m.templateNode) {
            // re-parse the template body with html rules, keeping source offsets
            const t = m.templateNode;
            const start = t.innerLoc ? t.innerLoc.start.offset : t.children[0]?.loc.start.offset ?? t.loc.start.offset;
            const end = t.innerLoc ? t.innerLoc.end.offset : start;
            const body = text.slice(0, start).replace(/[^\n]/g, ' ') + text.slice(start, end);
            m.template = vdom.parse(body, { comments: false });
            // `:name` is short for `:name="name"`
            const expand = (n) => {
                for (const p of n.props || [])
                    if (p.type === 7 && p.name === 'bind' && p.arg && p.arg.isStatic !== false && !p.exp) p.exp = { type: 4, content: p.arg.content.replace(/-([a-zA-Z0-9])/g, (_, c) => c.toUpperCase()), loc: p.arg.loc, isStatic: false, shorthand: true };
                (n.children || []).forEach(expand);
            };
            expand(m.template);
        }
        // keep line/column positions of the script block
        let buf = text.replace(/[^\n]/g, ' ');
        for (const s of scripts) {
            const a = s.innerLoc.start.offset;
            const b = s.innerLoc.end.offset;
            buf = buf.slice(0, a) + text.slice(a, b) + buf.slice(b);
        }
        code = buf;
    }
    m.sf = ts.createSourceFile(p + (m.kind === 'vue' ? '.ts' : ''), code, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    modules.set(p, m);
    return m;
}

function tryFile(base) {
    const c = [base, base + '.ts', base + '.vue', path.join(base, 'index.ts')];
    if (base.endsWith('.js')) c.unshift(base.slice(0, -3) + '.ts');
    for (const p of c) if (fs.existsSync(p) && fs.statSync(p).isFile() && (p.endsWith('.ts') || p.endsWith('.vue'))) return p;
    return null;
}

function resolveImport(spec, from) {
    if (spec.startsWith('@/')) return tryFile(path.join(UI, spec.slice(2)));
    if (spec.startsWith('.')) return tryFile(path.resolve(path.dirname(from), spec));
    return null;
}

function lineOf(mod, pos) {
    return mod.sf.getLineAndCharacterOfPosition(pos).line + 1;
}

function parseExpr(code, lineHint) {
    // expression first, statement list as fallback (template handlers may hold statements)
    const wrap = (c) => ts.createSourceFile('tpl.ts', c, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    const sf = wrap('(' + code + '\n)');
    if (!sf.parseDiagnostics.length && sf.statements.length === 1 && ts.isExpressionStatement(sf.statements[0])) {
        return { expr: sf.statements[0].expression.expression, sf, line: lineHint };
    }
    const sf2 = wrap(code);
    return { stmts: sf2.statements, sf: sf2, line: lineHint };
}

function css(p) {
    const text = fs.readFileSync(p, 'utf8');
    return postcss.parse(text, { from: p });
}

module.exports = { fs, path, ts, vdom, postcss, REPO, UI, MCP, rel, walk, isSource, sourceFiles, loadModule, resolveImport, lineOf, parseExpr, css, modules };
