'use strict';
// C12: every tag, directive and name of a template resolves inside the component itself.
const L = require('../lib/load.cjs');
const { ts } = L;
const T = require('../lib/template.cjs');
const { World, compDef, optionProp, camel, pascal } = require('../lib/component.cjs');
const { Sim } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

// names the set-up of a component exposes on every path; null when a spread hides them
function exposed(I, outs) {
    let sets = [];
    for (const o of outs) {
        const v = o.v && o.v.k === 'promise' ? o.v.v : o.v;
        if (!v || v.k === 'lit' || v.k === 'fn') {
            sets.push(new Set());
            continue;
        }
        if (v.k !== 'obj') return null;
        const s = new Set();
        const c = I.getCell(o.s, v.id);
        for (const n of c.props.keys()) s.add(n);
        for (const sp of c.spreads) {
            if (sp.v.k === 'torefs') for (const n of sp.v.props.inst.def.props.keys()) s.add(n);
            else return null;
        }
        sets.push(s);
    }
    return sets.reduce((a, b) => new Set([...a].filter((x) => b.has(x))), sets[0] || new Set());
}

exports.run = () => {
    const R = report();
    const files = [L.UI, L.MCP].flatMap((d) => L.sourceFiles(d)).filter((f) => f.endsWith('.vue'));
    const extra = (def, mod, name) => {
        // options API members, when a component uses them
        for (const opt of ['data', 'computed', 'methods', 'directives', 'inject']) {
            const p = optionProp(mod, opt);
            if (p && p.initializer && ts.isObjectLiteralExpression(p.initializer) && p.initializer.properties.some((q) => q.name && q.name.text === name)) return true;
        }
        return false;
    };
    for (const f of files) {
        const mod = L.loadModule(f);
        R.count('components');
        const rel = L.rel(f);
        let names = null;
        const sim = new Sim({ onSetup: (inst, outs) => { if (!inst.parent) names = exposed(sim.I, outs.filter((o) => !o.c)); } });
        const { inst } = sim.world.mount(mod, new (require('../lib/absint.cjs').St)(), {});
        const def = inst.def;
        if (!def.setup) names = new Set();
        for (const [n, c] of def.components) {
            R.count('registrations');
            const v = c.value;
            if (!v || v.k === 'lit' || (v.k === 'sym' && /^(unknown|global:)/.test(v.key))) R.violation({ file: rel, line: L.lineOf(mod, c.node.pos), key: `${def.name}|registers ${n}`, message: `registers ${n}, which is not defined in the module` });
        }
        const resolves = (tag) => [tag, camel(tag), pascal(tag)].some((n) => def.components.has(n));
        const checkName = (id, line, what, locals) => {
            R.count('names');
            const n = id.text;
            if (locals.has(n) || T.JS_GLOBALS.has(n) || T.INSTANCE.has(n) || def.props.has(n) || extra(def, mod, n)) return;
            if (names && names.has(n)) return;
            if (names === null && !n.startsWith('$')) return;
            R.violation({ file: rel, line, key: `${def.name}|name ${n}`, message: `template uses \`${n}\` (${what}), which the component neither declares nor exposes` });
        };
        const scanExp = (exp, line, what, locals) => {
            const r = L.parseExpr(exp.content, exp.loc.start.line);
            for (const id of r.expr ? T.freeIds(r.expr) : r.stmts.flatMap((s) => T.freeIds(s))) checkName(id, line, what, locals);
        };
        if (mod.template)
            T.walkTemplate(mod.template, (el, locals, anc, interp) => {
                if (interp) {
                    scanExp(interp.content, interp.loc.start.line, 'interpolation', locals);
                    return;
                }
                R.count('elements');
                const line = el.loc.start.line;
                const native = T.HTML.has(el.tag) || T.SVG.has(el.tag);
                if (!native && !T.isBuiltin(el.tag) && !resolves(el.tag) && pascal(el.tag) !== def.name) R.violation({ file: rel, line, key: `${def.name}|tag ${el.tag}`, message: `<${el.tag}> is neither a platform element, a built-in nor registered by ${def.name}` });
                for (const p of el.props) {
                    if (p.type !== 7) continue;
                    R.count('directives');
                    if (!T.BUILTIN_DIRS.has(p.name)) {
                        const d = optionProp(mod, 'directives');
                        const ok = (d && d.initializer && d.initializer.properties && d.initializer.properties.some((q) => q.name && [p.name, camel(p.name), pascal(p.name)].includes(q.name.text))) || (names && names.has('v' + pascal(p.name)));
                        if (!ok) R.violation({ file: rel, line: p.loc.start.line, key: `${def.name}|directive ${p.name}`, message: `v-${p.name} is not registered by ${def.name}` });
                    }
                }
                const is = el.tag === 'component' && el.props.find((p) => (p.type === 6 && p.name === 'is') || (p.type === 7 && p.name === 'bind' && p.arg && p.arg.content === 'is'));
                if (is) {
                    const lits = [];
                    if (is.type === 6) lits.push(is.value.content);
                    else {
                        const r = L.parseExpr(is.exp.content, line);
                        const visit = (n) => {
                            if (ts.isStringLiteral(n)) lits.push(n.text);
                            else if (ts.isConditionalExpression(n)) [n.whenTrue, n.whenFalse].forEach(visit);
                            else if (ts.isBinaryExpression(n)) [n.left, n.right].forEach(visit);
                            else if (ts.isParenthesizedExpression(n)) visit(n.expression);
                        };
                        if (r.expr) visit(r.expr);
                    }
                    for (const t of lits) if (/^[a-z][\w-]*$/i.test(t) && !T.HTML.has(t) && !T.SVG.has(t) && !T.isBuiltin(t) && !resolves(t)) R.violation({ file: rel, line, key: `${def.name}|is ${t}`, message: `<component is="${t}"> is not registered by ${def.name}` });
                }
                for (const x of T.exprs(el)) scanExp(x.exp, (x.prop.loc || el.loc).start.line, `${x.kind}${x.prop.arg ? ':' + x.prop.arg.content : ''}`, locals);
            });
        // components looked up by name at run time
        const visit = (n) => {
            if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && ['resolveComponent', 'resolveDirective', 'resolveDynamicComponent'].includes(n.expression.text)) {
                R.count('runtime_lookups');
                R.violation({ file: rel, line: L.lineOf(mod, n.getStart(mod.sf)), key: `${def.name}|lookup ${n.getText(mod.sf).slice(0, 60)}`, message: `looks a component or directive up among the globally registered ones` });
            }
            ts.forEachChild(n, visit);
        };
        visit(mod.sf);
    }
    R.require('components', 40);
    R.require('names', 400);
    return R.result({
        rule: 'Each template tag is a platform element, a framework built-in or in the components option; each directive is built-in or registered; each free identifier of a template expression is a local, a prop, a framework global or a name returned by setup on every path; registrations name values the module defines.',
        explanation: 'Resolution of every tag, directive, dynamic component literal and free identifier of every single-file component against its own registrations, props and the names its set-up returns (computed by abstract interpretation of setup).',
    });
};
exports.exposed = exposed;
