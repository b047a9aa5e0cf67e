'use strict';
// M06: generated code uses only what the registry returned.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit, U } = A;
const { ts } = L;
const { Server } = require('../lib/mcp.cjs');
const { tools, inputs } = require('../lib/tools.cjs');
const { report } = require('../lib/report.cjs');

const CTX = /(^|\W)VersionContext(\W|$)/;
const type = (n) => (n && n.type ? n.type.getText() : '');
// what the registry can say about a requested component
const SAYS = ['known', 'known, support unknown', 'unsupported', 'unknown', 'unreachable'];
const fine = (s) => /^known/.test(s);

class Scaffolds {
    constructor(R) {
        this.R = R;
        this.srv = new Server({
            mid: 40,
            joinText: true,
            keep: (e) => e.t === 'asked',
            decide: (v) => {
                if (v.k === 'sym' && /^global:process\.env/.test(v.key)) return false;
                // a registry name is some name, none the code spells out
                if (v.k === 'sym' && v.eq && v.eq.of && this.root(v.eq.of).registry) return false;
                return undefined;
            },
            intercept: (f, thisv, args, st, node, I) => (this.mode ? this.registry(f, args, st, I) : null),
        });
        this.I = this.srv.I;
        this.supportTypes = new Set();
        for (const m of this.srv.files)
            ts.forEachChild(m.sf, (n) => {
                if ((ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) && /['"]unsupported['"]/.test(n.getText()) && /['"]supported['"]/.test(n.getText())) this.supportTypes.add(n.name.text);
            });
        this.tools = tools(this.srv).filter((t) => t.output && t.output.shape.code);
    }
    root(v, d = 0) {
        const up = v && d < 20 ? v.memberOf || v.elemOf || v.awaited || (v.call && v.call.recv) : null;
        return up ? this.root(up, d + 1) : v || {};
    }
    // ------------------------------------------------------------ the registry: one answer per requested name
    registry(f, args, st, I) {
        if (f.k !== 'fn' || !f.mod || (f.scope !== null && f.scope !== undefined)) return null;
        const ret = type(f.node).replace(/\s+/g, ' ');
        if (this.supportTypes.has(ret)) {
            const m = this.metas.find((x) => args.some((a) => keyOf(a).includes(`${x.id}.`)));
            const status = m ? (m.says === 'unsupported' ? 'unsupported' : m.says === 'known' ? 'supported' : 'unknown') : 'unknown';
            return [{ s: st, v: I.mkObj(st, [['status', Lit(status)], ['message', Sym('support message', { nonnull: true })]]) }];
        }
        const isAsync = !!f.node.modifiers && f.node.modifiers.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
        const ctx = f.node.parameters.findIndex((p) => CTX.test(type(p)));
        if (!isAsync || ctx < 0 || !this.srv.reach.of(f.mod, f.node).fetch) return null;
        if (CTX.test(ret)) return [{ s: st, v: { k: 'promise', v: I.mkObj(st, [['source', Lit('input')], ['requestedVersion', Sym('version', { nonnull: true })], ['detectedVersion', Sym('version', { nonnull: true })], ['resolvedRef', Sym('ref', { nonnull: true })], ['warnings', I.mkArr(st, [])]]) } }];
        if (/^Promise<\w+Meta \| undefined>$/.test(ret)) {
            const key = args[0] ? keyOf(args[0]) : '';
            const m = this.metas.find((x) => key.includes(x.name));
            I.event(st, { t: 'asked', name: key });
            this.asked++;
            const says = m ? m.says : 'unknown';
            if (says === 'unreachable') return [{ s: st, v: { k: 'promise', rejected: true, v: this.srv.error(st, Sym('failure', { nonnull: true })) } }];
            return [{ s: st, v: { k: 'promise', v: says === 'unknown' ? U : this.meta(st, m) } }];
        }
        if (/^Promise<\w+Meta\[\]>$/.test(ret)) {
            if (this.metas.some((m) => m.says === 'unreachable')) return [{ s: st, v: { k: 'promise', rejected: true, v: this.srv.error(st, Sym('failure', { nonnull: true })) } }];
            return [{ s: st, v: { k: 'promise', v: I.mkArr(st, this.metas.filter((m) => m.says !== 'unknown').map((m) => this.meta(st, m))) } }];
        }
        return null;
    }
    meta(st, m) {
        const I = this.I;
        const r = (n) => Sym(`${m.id}.${n}`, { nonnull: true, registry: m.id, prim: 'string' });
        const named = (n, more = []) => I.mkObj(st, [['name', r(n)], ['description', r(`${n} text`)], ['type', r(`${n} type`)], ['default', r(`${n} default`)], ...more]);
        const model = (more = []) => I.mkObj(st, [['name', Lit('modelValue')], ['description', r('model text')], ...more]);
        return I.mkObj(st, [
            ['name', r('name')],
            ['kebabName', r('kebab')],
            ['description', r('about')],
            ['availableVersion', r('since')],
            ['props', I.mkArr(st, [named('required', [['required', Lit(true)]]), named('optional', [['required', Lit(false)]]), ...(m.model === 'prop' ? [model([['required', Lit(true)]])] : [])])],
            ['events', I.mkArr(st, [named('event'), ...(m.model === 'event' ? [I.mkObj(st, [['name', Lit('update:modelValue')], ['description', r('update text')]])] : [])])],
            ['slots', I.mkArr(st, [named('slot'), ...(m.slot ? [I.mkObj(st, [['name', Lit('default')], ['description', r('slot text')]])] : [])])],
            ['methods', I.mkArr(st, [])],
            [
                'styleSet',
                I.mkObj(st, [
                    ['variables', I.mkObj(st, m.styled ? [['registryVariable', r('variable')]] : [])],
                    ['component', Lit(!!m.styled)],
                    ['childRefs', I.mkArr(st, m.styled ? [r('child')] : [])],
                    ['raw', r('raw')],
                ]),
            ],
        ]);
    }
    // ------------------------------------------------------------ generated text
    // every text a value can be: [string with ⟨n⟩ for parts that are not fixed]
    texts(st, v, table, d = 0) {
        if (!v || d > 12) return ['⟨?⟩'];
        if (v.k === 'lit') return [String(v.v)];
        if (v.phi) return v.phi.flatMap((x) => this.texts(st, x, table, d + 1)).slice(0, 40);
        if (v.k === 'sym' && v.parts) {
            let out = [''];
            for (const p of v.parts) {
                const ts_ = this.texts(st, p, table, d + 1);
                out = out.flatMap((a) => ts_.map((b) => a + b)).slice(0, 40);
            }
            return out;
        }
        table.push(v);
        return [`⟨${table.length - 1}⟩`];
    }
    // where a value comes from: {input, registry: Set, clean}
    origin(st, v, out = { input: null, registry: new Set(), cleans: [], fixed: [] }, d = 0, seen = new Set()) {
        if (!v || d > 25) return out;
        if (v.registry) out.registry.add(v.registry);
        if (v.k === 'lit' && typeof v.v === 'string') out.fixed.push(v.v);
        if (v.input) out.input = out.input || v.key;
        if (v.call && /^replace(All)?$/.test(v.call.name)) out.cleans.push(v.call.args[0]);
        const next = [v.memberOf, v.elemOf, v.awaited, v.spreadOf, v.elem, v.derived, v.jsonOf, v.encoded, v.from, ...(v.phi || []), ...(v.parts || []), ...(v.cbVals || [])];
        if (v.call) next.push(v.call.recv, ...(v.call.args || []));
        if (v.pure) next.push(...v.pure.args);
        if (v.arith) next.push(v.arith.a, v.arith.b);
        if (v.id !== undefined && !seen.has(v.id) && !v.registry) {
            seen.add(v.id);
            const c = this.I.getCell(st, v.id);
            if (c) next.push(...(c.elems || c.was || []));
        }
        for (const x of next) if (x && typeof x === 'object' && !Array.isArray(x)) this.origin(st, x, out, d + 1, seen);
        return out;
    }
    // a pattern that takes out what could end the comment; patterns that cannot be read are given the benefit of the doubt
    cleans(re, kind) {
        if (!re) return false;
        if (re.k === 'lit') return false;
        if (re.k !== 'regex') return true;
        const [, src, flags] = re.text.match(/^\/(.*)\/([a-z]*)$/s);
        if (!flags.includes('g')) return false;
        if (kind === 'line') return /\\s|\\n|\\r|\[\^/.test(src);
        return /[<>-]|\[\^|\\W/.test(src);
    }
    judge(t, scenario, st, v, bad) {
        const table = [];
        for (const code of this.texts(st, v, table)) {
            this.R.count('texts_checked');
            this.text(t, scenario, st, code, table, bad);
        }
    }
    text(t, scenario, st, code, table, bad) {
        const of = (id) => this.origin(st, table[Number(id)]);
        const ids = (s) => [...s.matchAll(/⟨(\d+)⟩/g)].map((m) => m[1]);
        // comments may carry what was asked, as long as it stays inside
        let rest = code;
        for (const [re, kind] of [[/<!--[^]*?-->/g, 'block'], [/\/\*[^]*?\*\//g, 'block'], [/(^|\s)\/\/[^\n]*/g, 'line']])
            rest = rest.replace(re, (c) => {
                for (const id of ids(c)) {
                    const o = of(id);
                    this.R.count('parts_checked');
                    if (o.input && !o.cleans.some((x) => this.cleans(x, kind))) bad(`comment ${o.input}`, `text taken as it comes (${o.input}) can end the comment it is put in and become code`);
                }
                return ' ';
            });
        for (const id of ids(rest)) {
            const o = of(id);
            this.R.count('parts_checked');
            if (o.input) bad(`part ${o.input}`, `the generated code contains ${o.input} rather than what the registry returned`);
            for (const f of o.fixed) for (const m of f.matchAll(/\b(vs-[a-z][\w-]*|Vs[A-Z]\w*)\b/g)) bad(`component ${m[1]}`, `the generated code uses ${m[1]}, which was neither requested nor looked up`);
        }
        // components spelled out
        for (const m of rest.matchAll(/<\/?(vs-[\w-]+|Vs[A-Z]\w*)|\b(Vs[A-Z]\w*)\b/g)) bad(`component ${m[1] || m[2]}`, `the generated code uses ${m[1] || m[2]}, which was neither requested nor looked up`);
        const metas = new Map(this.metas.map((m) => [m.id, m]));
        // bindings of component tags
        for (const m of rest.matchAll(/<⟨(\d+)⟩([^<>]*)>/g)) {
            const own = of(m[1]).registry;
            this.R.count('tags_checked');
            for (const a of m[2].matchAll(/(?:^|\s)([^\s=<>"'/]+)(?:="([^"]*)")?/g)) {
                const name = a[1];
                if (name === '/') continue;
                this.R.count('bindings_checked');
                const used = ids(name).map((id) => [...of(id).registry]).flat();
                if (used.length) {
                    if (!used.every((x) => own.has(x))) bad('foreign binding', 'a tag gets a binding of another component');
                    continue;
                }
                if (ids(name).length) continue;
                const model = [...own].some((x) => metas.get(x) && metas.get(x).model);
                if (/^v-model(\.|$)/.test(name) && model) continue;
                if (/^(:?key|ref|:?class|:?style|v-(for|if|else|else-if|show|bind|on|slot)|#\w+)$/.test(name)) continue;
                bad(`binding ${name}`, `the generated code binds ${name} on a component whose registry entry has no such member`);
            }
        }
        // slots handed over
        for (const m of rest.matchAll(/<⟨(\d+)⟩[^<>]*[^/]>\s*<template\s+(?:#|v-slot:)([\w-]+)/g))
            if (m[2] !== 'default' || ![...of(m[1]).registry].some((x) => metas.get(x) && metas.get(x).slot)) bad(`slot ${m[2]}`, `the generated code fills the slot ${m[2]}, which the registry entry does not have`);
        // names imported from the library
        for (const m of rest.matchAll(/import\s*(?:type\s*)?\{([^}]*)\}\s*from\s*['"]vlossom[^'"]*['"]/g)) {
            this.R.count('imports_checked');
            for (const n of m[1].split(',').map((x) => x.trim()).filter(Boolean)) if (!/⟨/.test(n) && /^[A-Z]/.test(n)) bad(`import ${n}`, `the generated code imports ${n}, which the registry did not return`);
        }
        // style keys
        if (scenario.kind === 'style-set')
            for (const m of rest.matchAll(/(?:^|[{,\n])\s*['"]?([\w$-]+)['"]?\s*:(?!:)/g)) {
                this.R.count('style_keys_checked');
                const styled = this.metas[0].styled;
                if (!styled || !['variables', 'component', 'registryVariable'].includes(m[1])) bad(`style key ${m[1]}`, `the generated style uses the key ${m[1]}, which the registry entry does not have`);
            }
    }
    // ------------------------------------------------------------ requests
    scenarios() {
        const out = [];
        for (const a of SAYS) out.push({ kind: 'component-usage', says: [a] }), out.push({ kind: 'style-set', says: [a] });
        for (const a of SAYS) for (const b of SAYS) out.push({ kind: 'component-usage', says: [a, b] });
        for (const a of SAYS.slice(2)) out.push({ kind: 'component-usage', says: ['known', 'known', a] });
        out.push({ kind: 'component-usage', says: [] }, { kind: 'style-set', says: [] });
        out.push({ kind: 'component-usage', says: ['known'], more: [{ slot: true }] });
        for (const model of ['prop', 'event']) out.push({ kind: 'component-usage', says: ['known', 'known'], more: [{ model, slot: true }, {}] }, { kind: 'component-usage', says: ['known', 'known'], more: [{}, { model }] });
        out.push({ kind: 'style-set', says: ['known'], more: [{ styled: true }] }, { kind: 'style-set', says: ['unsupported'], more: [{ styled: true }] });
        return out;
    }
    member(st, o, name) {
        const r = o && o.k === 'obj' ? this.I.getMember(st.clone(), o, name, null, {}) : [];
        return r.length ? r[0].v : null;
    }
    // objects in an answer that carry code: the answer itself and what it is made of
    carriers(st, v, out = [], d = 0, seen = new Set()) {
        if (!v || d > 5) return out;
        if (v.phi) for (const x of v.phi) this.carriers(st, x, out, d, seen);
        if (v.k !== 'obj' || seen.has(v.id)) return out;
        seen.add(v.id);
        const c = this.I.getCell(st, v.id);
        if (!c || !c.props) return out;
        if (c.props.has('status')) out.push(v);
        for (const n of ['structuredContent', 'scaffold']) this.carriers(st, c.props.get(n), out, d + 1, seen);
        return out;
    }
    follow(t, make, s) {
        this.metas = s.says.map((says, i) => ({ id: `R${i}`, name: `requested${i}`, says, ...((s.more && s.more[i]) || {}) }));
        const st = this.srv.fresh();
        const I = this.I;
        const req = this.metas.map((m) => Sym(m.name, { nonnull: true, input: true, prim: 'string' }));
        const opt = (n) => Sym(`context.${n}`, { input: true });
        const context = I.mkObj(st, [['version', Sym('context.version', { nonnull: true, input: true })], ...['framework', 'typescript', 'hasBusinessLogic'].map((n) => [n, opt(n)])]);
        const over = { context, policy: U, description: Sym('description', { nonnull: true, input: true, prim: 'string' }) };
        if (s.kind === 'style-set') over.component = req[0] || U;
        else over.components = I.mkArr(st, req);
        this.mode = s;
        this.asked = 0;
        const outs = this.srv.run(t.handler, [make(this.srv, st, over)], st);
        this.mode = null;
        this.R.count('cases_followed');
        const all = s.says.length && s.says.every(fine);
        const said = s.says.length ? s.says.map((x) => (x === 'unknown' ? 'unknown' : x)).join(' + ') : 'nothing';
        let delivered = 0;
        for (const o of outs) {
            this.R.count('paths_followed');
            const bad = (key, message) => this.R.violation({ file: t.mod.rel, line: L.lineOf(t.mod, t.node.getStart(t.mod.sf)), key: `${t.name} ${s.kind} ${key}`, message: `${t.name} (${s.kind}, requested: ${said}): ${message}` });
            if (o.rejected) continue;
            for (const r of this.carriers(o.s, o.v)) {
                const status = this.member(o.s, r, 'status');
                const code = this.member(o.s, r, 'code');
                const error = this.member(o.s, r, 'error');
                const none = (v) => !v || (v.k === 'lit' && (v.v === undefined || v.v === null || v.v === ''));
                const asked = o.s.events().some((e) => e.t === 'asked');
                this.R.count('answers_checked');
                const oks = (status && (status.phi || [status]).some((x) => x.k === 'lit' && x.v === 'ok')) || false;
                if (!all) {
                    if (oks) bad(`ok ${said}`, 'is answered with success');
                    if (!none(code)) bad(`code ${said}`, 'is answered with code');
                    if (none(error)) bad(`silent ${said}`, 'is answered without saying what is wrong');
                } else if (!none(code)) {
                    delivered++;
                    if (!asked) bad('unasked', 'code is generated without asking the registry');
                    this.judge(t, s, o.s, code, bad);
                }
            }
        }
        if (all) this.R.count('codes_delivered', delivered ? 1 : 0);
    }
    run() {
        for (const t of this.tools) {
            this.R.count('tools');
            const kinds = inputs(t, ['kind']);
            for (const s of this.scenarios()) {
                const i = kinds.find((k) => k.picks.kind === s.kind);
                if (i) this.follow(t, i.make, s);
            }
            this.R.sample(`${t.name}: ${kinds.map((k) => k.name).join('; ')}`);
        }
        this.R.stats(this.I.stats);
    }
}

function run() {
    const R = report();
    new Scaffolds(R).run();
    R.require('tools', 1);
    R.require('cases_followed', 30);
    R.require('answers_checked', 30);
    R.require('codes_delivered', 5);
    R.require('tags_checked', 1);
    R.require('style_keys_checked', 1);
    return R.result({
        rule: 'For every combination of what the registry says about the requested components (known, unsupported, unknown, unreachable), code is answered only if all are known and supported; every variable part of the code comes from the registry answer (request text only inside comments it cannot end); tags only bind members of their own registry entry; imports and style keys are ones the entry has.',
        explanation: 'Abstract interpretation of the scaffolding tool from its registered handler, with requested names, description and registry texts opaque and marked with their origin; the generated text is kept as a sequence of fixed and variable parts and read as markup.',
        assumptions: ['The registry answers about the resolved version (M04).', 'Request lists of up to three components stand for all.'],
    });
}
module.exports = { run };
