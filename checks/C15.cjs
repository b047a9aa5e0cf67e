'use strict';
// C15: every key a style-set type offers has an effect; every CSS variable read is provided.
const path = require('path');
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { U } = A;
const { Styled, mark, styledComponents, shape, declaredSet } = require('../lib/style.cjs');
const { report } = require('../lib/report.cjs');
const ts = L.ts;

// all variables the stylesheets declare and read
function stylesheets(R) {
    const declared = new Map(), reads = [], roots = [];
    for (const f of L.walk(L.UI)) {
        if (!/\.(css|vue)$/.test(f) || /__(tests|stories)__/.test(f)) continue;
        if (f.endsWith('.css')) roots.push([f, L.css(f)]);
        else for (const m of L.fs.readFileSync(f, 'utf8').matchAll(/<style[^>]*>([\s\S]*?)<\/style>/g)) if (m[1].trim()) roots.push([f, L.postcss.parse(m[1])]);
    }
    for (const [f, root] of roots) {
        R.count('stylesheets');
        const read = (text, line, owner) => {
            for (const m of text.matchAll(/var\(\s*(--[\w-]+)\s*(,?)/g)) reads.push({ f, name: m[1], fallback: !!m[2], line, owner });
            // shorthand of utility classes
            for (const m of text.matchAll(/\((--[\w-]+)\)/g)) if (!text.slice(0, m.index).endsWith('var')) reads.push({ f, name: m[1], fallback: false, line, owner });
        };
        root.walkDecls((d) => {
            if (d.prop.startsWith('--')) {
                if (!declared.has(d.prop)) declared.set(d.prop, []);
                declared.get(d.prop).push({ f, value: d.value.trim(), line: d.source.start.line });
            }
            read(d.value, d.source.start.line, d.prop);
        });
        root.walkAtRules((r) => read(r.params, r.source.start.line, null));
    }
    return { declared, reads };
}

// CSS variable names the program itself writes: text of string literals and template heads
function written() {
    const out = new Set(), read = new Set();
    for (const f of L.sourceFiles(L.UI)) {
        const m = L.loadModule(f);
        const visit = (n) => {
            const t = ts.isStringLiteralLike(n) ? n.text : n.kind === ts.SyntaxKind.TemplateHead ? n.text : null;
            if (t && /^--[\w-]+$/.test(t)) out.add(t);
            if (t) for (const x of t.matchAll(/var\(\s*(--[\w-]+)/g)) read.add(x[1]);
            ts.forEachChild(n, visit);
        };
        visit(m.sf);
    }
    return { out, read };
}

exports.run = () => {
    const R = report();
    const { declared, reads } = stylesheets(R);
    const code = written();
    const used = new Set(reads.map((r) => r.name));
    const given = new Map(); // variable -> always provided by its component
    const sets = [];
    for (const f of styledComponents()) {
        const mod = L.loadModule(f);
        const type = mod.template && declaredSet(mod);
        if (!type) continue;
        R.count('components');
        // one marker per key; parts declared elsewhere are followed one level, into the child that owns them
        const want = new Map();
        const build = (t, at, depth) => {
            const sh = shape(t);
            const o = {};
            if (sh.css) {
                o.color = mark(`${at}color`);
                want.set(`${at}color`, { kind: 'plain', at });
            }
            for (const [k, node] of sh.prims) {
                o[k] = mark(at + k);
                want.set(at + k, { kind: depth ? 'nested' : 'prim', k, node });
            }
            for (const [k, x] of sh.parts) {
                const foreign = depth > 0 && x.node.getSourceFile() !== t.getSourceFile();
                if (!foreign && depth < 3) o[k] = build(x.type, `${at}${k}.`, depth + 1);
            }
            return o;
        };
        const set = build(type, '', 0);
        const S = new Styled(f, { calm: true, props: { styleSet: (X, s) => X.obj(s, set) } });
        const n = S.name;
        sets.push({ f, n, want });
        const got = new Map();
        for (const x of S.reaching(S.states(), ['style'])) {
            if (!got.has(x.mark)) got.set(x.mark, []);
            got.get(x.mark).push(x);
        }
        const bad = (key, line, message) => R.violation({ file: L.rel(f), line, key: `${n} ${key}`, message: `${n}: ${message}` });
        for (const [p, w] of want) {
            R.count('keys');
            const at = got.get(p) || [];
            if (!at.length) {
                bad(p, 1, w.kind === 'plain' ? `plain CSS in ${w.at ? w.at.slice(0, -1) : 'the style set'} is not applied to anything it renders` : `the style-set key ${p} reaches nothing it renders`);
                continue;
            }
            if (w.kind !== 'prim') continue;
            // a primitive key: as a CSS variable a stylesheet reads, or handed on to the child that declares it
            const vars = new Set(at.map((x) => x.keys.find((k) => k.startsWith('--'))).filter(Boolean));
            const handed = at.some((x) => x.sink.child && x.keys.includes(w.k)) || at.some((x) => !x.keys.some((k) => k.startsWith('$') || k.startsWith('--')));
            for (const v of vars) if (used.has(v) || code.read.has(v)) R.count('variables');
            if (![...vars].some((v) => used.has(v) || code.read.has(v)) && !handed)
                bad(`${p} unread`, 1, vars.size ? `no stylesheet reads ${[...vars].join(', ')}, the variable of the style-set key ${p}` : `the style-set key ${p} does not become a CSS variable`);
        }
        // variables present without any style set
        const B = new Styled(f, { calm: true, props: { styleSet: U } });
        B.sim.under(B.scn, () => {
            for (const sink of B.sinks(['style']))
                for (const s of B.states())
                    for (const o of sink.ev(s.clone())) {
                        if (o.c) continue;
                        for (const k of keysOf(B, o.s, o.v)) if (k.startsWith('--')) given.set(k, n);
                    }
        });
    }
    // every variable read is provided
    for (const r of reads) {
        R.count('reads');
        if (r.fallback || r.name.startsWith('--color-') || r.name.startsWith('--tw-')) continue;
        const d = declared.get(r.name);
        const key = `${path.basename(r.f)} ${r.name}`;
        if (!d && !code.out.has(r.name) && !given.has(r.name)) R.violation({ file: L.rel(r.f), line: r.line, key, message: `${r.name} is read without a fallback and nothing provides it` });
        // reset by its component and meant to be given: needs a fallback or a value the component always gives
        const owner = sets.find((s) => [...s.want.values()].some((w) => w.kind === 'prim' && r.name === `--${kebab(s.n)}-${w.k.slice(1)}`));
        if (owner && (!d || d.every((x) => x.value === 'initial')) && !given.has(r.name)) R.violation({ file: L.rel(r.f), line: r.line, key, message: `${r.name} is read without a fallback though ${owner.n} may leave it unset` });
    }
    R.require('components', 30);
    R.require('reads', 100);
    return R.result({
        rule: 'For each component the declared type of its style set is expanded into its keys, every key is given a marker, and abstract interpretation of set-up and template decides where the markers arrive: each must reach a style binding of an element it renders or the style set of a child, and a primitive key must become a CSS variable some stylesheet reads. Every variable a stylesheet reads must have a fallback, a declaration, or be written by the component; a variable a component resets and takes from its style set must have a fallback or a value the component always gives.',
        explanation: 'Counts stylesheets parsed, style-set keys followed, variables of primitive keys found in stylesheets, and variable reads resolved.',
        assumptions: ['variables of the imported utility framework (--color-*, --tw-*) are provided by it', 'a declaration anywhere in the stylesheets counts as providing a shared variable; selector scoping of theme variables is not judged', 'a modal trigger renders nothing itself and is not followed'],
    });
};

const kebab = (n) => n.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();
function keysOf(S, s, v, out = []) {
    v = S.I.norm(s, v);
    if (v.k === 'obj') for (const [k, x] of S.I.getCell(s, v.id).props) out.push(k), keysOf(S, s, x, out);
    if (v.k === 'arr') for (const x of S.I.elements(s, v) || []) keysOf(S, s, x, out);
    if (v.k === 'computed' || v.k === 'ref') for (const o of S.I.readRef(s.clone(), v, null)) keysOf(S, o.s, o.v, out);
    return out;
}
