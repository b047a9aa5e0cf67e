'use strict';
// M03: every tool call ends in a well-formed answer with usable next steps.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit } = A;
const { ts } = L;
const { Server } = require('../lib/mcp.cjs');
const { tools, inputs } = require('../lib/tools.cjs');
const { report } = require('../lib/report.cjs');

const RAISES = /^global:(JSON\.parse|decodeURI(Component)?)$/;
// a value of unknown shape: parsed out of text somebody passed in
function raw(v, d = 0) {
    if (!v || v.k !== 'sym' || d > 6) return false;
    if (v.call) return v.call.fk === 'global:JSON.parse';
    const from = v.from || v.memberOf || v.elemOf || v.spreadOf;
    if (!from) return false;
    return (Array.isArray(from) ? from : [from]).some((x) => raw(x, d + 1));
}

class Answers {
    constructor(R) {
        this.R = R;
        this.srv = new Server({
            keep: (e) => e.t === 'raise',
            decide: (v) => (v.k === 'sym' && /^global:process\.env/.test(v.key) ? false : undefined),
            valueKey: (st, v) => (this.live ? this.outline(st, v) : ''),
            onOpaque: (c, st, I) => this.opaque(c, st, I),
        });
        this.I = this.srv.I;
        this.tools = tools(this.srv);
        this.srv.opaqueData = 'next_actions';
        this.names = new Map(this.tools.map((t) => [t.name, t]));
    }
    // calls that raise on the wrong input
    opaque(c, st, I) {
        if (!this.live) return null;
        const wrong = c.recv && raw(c.recv) && !this.isText(st, c.recv);
        if (!RAISES.test(c.fk) && !wrong) return null;
        this.R.count('raising_operations');
        const bad = st.clone();
        I.event(bad, { t: 'raise', node: c.node, key: c.fk });
        return [
            { s: st, v: Sym(`${c.fk}(${I.argKeys(c.args)})`, { call: c }) },
            { s: bad, c: 'throw', v: this.srv.error(bad, Sym('failure', { nonnull: true })) },
        ];
    }
    isText(st, v) {
        const t = this.I.truth(st.clone(), this.I.strictEq(st, Sym(`typeof(${v.key})`, { typeofOf: v.key, nonnull: true }), Lit('string')));
        return !t.f;
    }
    at(t) {
        return { file: t.mod.rel, line: L.lineOf(t.mod, t.node.getStart(t.mod.sf)) };
    }
    run() {
        for (const t of this.tools) {
            this.R.count('tools');
            const only = Object.keys(t.input.shape).filter((n) => t.input.shape[n].type === 'enum').slice(0, 1);
            for (const i of inputs(t, only)) {
                this.R.count('input_classes');
                const st = this.srv.fresh();
                this.live = true;
                const outs = this.srv.run(t.handler, [i.make(this.srv, st)], st);
                this.live = false;
                for (const o of outs) this.answer(t, i, o);
            }
        }
    }
    answer(t, i, o) {
        this.R.count('paths_followed');
        const bad = (key, message, at) => this.R.violation({ ...(at || this.at(t)), key: `${t.name} ${key}`, message: `${t.name} (${i.name}): ${message}` });
        if (o.rejected) {
            const e = o.s.events().filter((x) => x.t === 'raise').pop();
            const m = e && e.node ? this.I.loc(e.node) : '';
            const why = this.reason(o);
            return bad(`raises ${m}`, `the call is answered by raising${m ? ` from ${m} (${e.key.replace(/^.*\./, '.')} on a value read from text)` : why ? ` (${why})` : ''}`);
        }
        const all = this.alternatives(o.s, o.v).flatMap((r) => this.alternatives(o.s, this.member(o.s, r, 'structuredContent')));
        if (!all.length) return bad('unstructured', 'an answer carries no structured result');
        for (const d of all) this.result(t, i, o, d, bad);
    }
    // the objects a merged value stands for
    alternatives(st, v, out = []) {
        if (v && v.k === 'obj' && this.I.getCell(st, v.id)) out.push(v);
        else if (v && v.phi) for (const x of v.phi) this.alternatives(st, x, out);
        return out;
    }
    // what must stay distinguishable when paths are joined: outcome, members and suggested steps of an answer
    outline(st, v, d = 0) {
        if (!v) return '';
        if (v.k === 'promise') return this.outline(st, v.v, d);
        if (v.k === 'lit') return typeof v.v === 'string' ? v.v.slice(0, 60) : String(v.v);
        if (v.k === 'arr') return `[${d > 2 ? '' : (this.I.elements(st, v) || []).map((x) => this.outline(st, x, d + 1)).join()}]`;
        if (v.k !== 'obj') return v.k === 'sym' && !v.phi ? '?' : v.k;
        const c = this.I.getCell(st, v.id);
        if (!c || !c.props) return 'obj';
        if (d === 0 && !c.props.has('next_actions') && !c.props.has('structuredContent')) return 'obj';
        return `{${[...c.props].map(([n, x]) => `${n}:${d > 0 && n !== 'next_actions' && n !== 'structuredContent' ? (x.k === 'lit' ? this.outline(st, x) : x.k) : this.outline(st, x, d + 1)}`).join()}}`;
    }
    result(t, i, o, data, bad) {
        if (t.output) this.shape(o.s, data, t.output, '', (p, m) => bad(`shape ${p}`, `${p} ${m}`));
        const status = this.member(o.s, data, 'status');
        if (!status || (status.k === 'lit' && typeof status.v !== 'string')) bad('status', 'an answer does not state its outcome');
        this.R.count('answers_checked');
        if (status && status.k === 'lit' && status.v !== 'error' && this.failed(o.s) && !this.tells(o.s, data)) bad(`silent ${status.v}`, `an upstream failure is answered as "${status.v}" without saying so`);
        this.steps(t, i, o.s, data, bad);
    }
    reason(o) {
        const v = o.v && o.v.id !== undefined && this.member(o.s, o.v, 'message');
        return v ? keyOf(v) : '';
    }
    member(st, o, name) {
        if (!o || o.k !== 'obj') return null;
        const r = this.I.getMember(st.clone(), o, name, null, {});
        return r.length ? r[0].v : null;
    }
    failed(st) {
        return st.events().some((e) => e.t === 'loadfail');
    }
    // does the answer carry the reason of a failure
    tells(st, v, seen = new Set()) {
        if (!v) return false;
        if (v.id === undefined) return /\bfailure\b/.test(keyOf(v));
        if (seen.has(v.id)) return false;
        seen.add(v.id);
        const c = this.I.getCell(st, v.id);
        if (!c) return false;
        if (c.props) for (const x of c.props.values()) if (this.tells(st, x, seen)) return true;
        if (c.elems) for (const x of c.elems) if (this.tells(st, x, seen)) return true;
        return false;
    }
    shape(st, v, s, p, bad) {
        this.R.count('fields_checked');
        const name = p || 'the answer';
        if (!v || (v.k === 'lit' && v.v === undefined)) {
            if (!s.optional) bad(name, 'is missing although the tool promises it');
            return;
        }
        if (v.k === 'sym' || v.k === 'not' || s.type === 'unknown') return;
        if (v.k === 'lit') {
            if (s.type === 'enum') {
                if (!s.values.includes(v.v)) bad(name, `is "${v.v}", which is not one of ${s.values.join(', ')}`);
            } else if (['string', 'number', 'boolean'].includes(s.type) ? typeof v.v !== s.type : true) bad(name, `is ${JSON.stringify(v.v)}, not ${s.type === 'array' ? 'a list' : `a ${s.type}`}`);
            return;
        }
        if (v.k === 'arr') {
            if (s.type !== 'array') return void bad(name, `is a list, not a ${s.type}`);
            for (const e of this.I.elements(st, v) || []) if (!e.spreadOf) this.shape(st, e, s.elem, `an entry of ${name}`, bad);
            return;
        }
        if (v.k === 'obj') {
            if (s.type !== 'object' && s.type !== 'record') return void bad(name, `is an object, not a ${s.type}`);
            const c = this.I.getCell(st, v.id);
            for (const [n, f] of Object.entries(s.shape || {})) {
                if (!c.props.has(n) && (c.unknown || c.spread || c.overlay)) continue;
                this.shape(st, this.member(st, v, n), f, p ? `${n} of ${p}` : n, bad);
            }
        }
    }
    steps(t, i, st, data, bad) {
        const list = this.member(st, data, 'next_actions');
        if (!list || list.k !== 'arr') return;
        for (const a of this.I.elements(st, list) || []) {
            if (!a || a.k !== 'obj') continue;
            this.R.count('next_steps_checked');
            const tool = this.member(st, a, 'tool');
            const reason = this.member(st, a, 'reason');
            if (!tool || tool.k !== 'lit') continue;
            const to = this.names.get(tool.v);
            if (!to) {
                bad(`step ${tool.v}`, `suggests the tool "${tool.v}", which the server does not offer`);
                continue;
            }
            const input = this.member(st, a, 'input') || this.member(st, a, 'arguments');
            if (input && input.k === 'obj') this.shape(st, input, to.input, '', (p, m) => bad(`step ${tool.v} ${p}`, `suggests ${tool.v} with an input whose ${p} ${m}`));
            const text = reason && reason.k === 'lit' ? reason.v : reason && reason.parts ? reason.parts.map((x) => (x.k === 'lit' ? x.v : '…')).join('') : '';
            for (const m of text.matchAll(/\b([A-Za-z][\w.]*)\s*:\s*'([^']*)'/g)) this.named(to, m[1], m[2], (what) => bad(`step ${tool.v} ${m[1]}`, `suggests ${tool.v} with ${m[1]}:'${m[2]}', ${what}`));
        }
    }
    // suggestions written anywhere else, such as those attached to findings
    suggestions() {
        const prop = (o, n) => (o.properties.find((p) => ts.isPropertyAssignment(p) && p.name.getText() === n) || {}).initializer;
        for (const mod of this.srv.files) {
            const visit = (n) => {
                ts.forEachChild(n, visit);
                if (!ts.isObjectLiteralExpression(n)) return;
                const tool = prop(n, 'tool');
                if (!tool || !prop(n, 'reason') || !ts.isStringLiteralLike(tool)) return;
                this.R.count('suggestions_read');
                const at = { file: mod.rel, line: L.lineOf(mod, n.getStart(mod.sf)) };
                const to = this.names.get(tool.text);
                if (!to) return this.R.violation({ ...at, key: `suggests ${tool.text}`, message: `suggests the tool "${tool.text}", which the server does not offer` });
                const input = prop(n, 'input') || prop(n, 'arguments');
                if (input) this.literal(input, to.input, '', (p, m) => this.R.violation({ ...at, key: `suggests ${tool.text} ${p}`, message: `suggests ${tool.text} with an input whose ${p} ${m}` }));
            };
            visit(mod.sf);
        }
    }
    // a written value against a schema; anything computed is left to its declared type
    literal(n, s, p, bad) {
        while (ts.isAsExpression(n) || ts.isParenthesizedExpression(n) || ts.isSatisfiesExpression(n)) n = n.expression;
        const name = p || 'value';
        if (s.type === 'unknown') return;
        this.R.count('suggested_values');
        if (ts.isStringLiteralLike(n)) {
            if (s.type === 'enum' ? !s.values.includes(n.text) : s.type !== 'string') bad(name, s.type === 'enum' ? `is "${n.text}", which is not one of ${s.values.join(', ')}` : `is text, not a ${s.type}`);
        } else if (ts.isNumericLiteral(n)) {
            if (s.type !== 'number') bad(name, `is a number, not a ${s.type}`);
        } else if (ts.isArrayLiteralExpression(n)) {
            if (s.type !== 'array') return bad(name, `is a list, not a ${s.type}`);
            for (const e of n.elements) if (!ts.isSpreadElement(e)) this.literal(e, s.elem, `${name} entry`, bad);
        } else if (ts.isConditionalExpression(n)) for (const x of [n.whenTrue, n.whenFalse]) this.literal(x, s, p, bad);
        else if (ts.isObjectLiteralExpression(n)) {
            if (s.type !== 'object') return s.type === 'record' ? undefined : bad(name, `is an object, not a ${s.type}`);
            const own = new Set();
            let open = false;
            for (const x of n.properties) {
                if (ts.isSpreadAssignment(x) || !x.name || ts.isComputedPropertyName(x.name)) open = true;
                else {
                    own.add(x.name.text);
                    const f = s.shape && s.shape[x.name.text];
                    if (!f) bad(`${x.name.text}${p ? ` of ${p}` : ''}`, 'is not something the tool takes');
                    else if (ts.isPropertyAssignment(x)) this.literal(x.initializer, f, `${x.name.text}${p ? ` of ${p}` : ''}`, bad);
                }
            }
            if (!open) for (const [k, f] of Object.entries(s.shape || {})) if (!f.optional && !own.has(k)) bad(`${k}${p ? ` of ${p}` : ''}`, 'is missing although the tool requires it');
        }
    }
    named(to, path, value, bad) {
        this.R.count('suggested_arguments');
        let s = to.input;
        for (const n of path.split('.')) {
            if (!s.shape || !s.shape[n]) return bad('an argument the tool does not take');
            s = s.shape[n];
        }
        if (s.type === 'enum' && !s.values.includes(value)) bad('a value the tool does not accept');
    }
}

function run() {
    const R = report('M03');
    const a = new Answers(R);
    a.run();
    a.suggestions();
    R.require('tools', 1);
    R.require('answers_checked', a.tools.length);
    R.require('next_steps_checked', 1);
    for (const t of a.tools) R.sample(t.name);
    R.stats(a.srv.I.stats);
    return R.result({
        rule: 'No path of a tool handler ends in a raised error; every answer it builds has the members and values its output schema promises and states its outcome; every suggested step names a registered tool and only arguments and values in that tool\'s input schema.',
        explanation: 'Every registered handler is interpreted abstractly, once per value of its leading choice with all other inputs opaque. Functions that only load repository data either yield something unknown or fail, at every call; reading text into a structure, and using values of unknown shape as text, may raise.',
        assumptions: ['Values whose declared type is not bypassed by a cast of parsed text have that type.'],
    });
}
module.exports = { run };
