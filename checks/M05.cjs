'use strict';
// M05: a validation verdict follows from its findings.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit, U } = A;
const { ts } = L;
const { Server } = require('../lib/mcp.cjs');
const { tools, inputs } = require('../lib/tools.cjs');
const { report } = require('../lib/report.cjs');

// finding types: interfaces with a rule and a severity
function findingTypes(files) {
    const out = new Set();
    for (const m of files)
        ts.forEachChild(m.sf, (n) => {
            const members = ts.isInterfaceDeclaration(n) ? n.members : ts.isTypeAliasDeclaration(n) && ts.isTypeLiteralNode(n.type) ? n.type.members : null;
            if (!members) return;
            const names = members.map((x) => x.name && x.name.getText());
            if (names.includes('severity') && names.some((x) => /^rule/i.test(x))) out.add(n.name.text);
        });
    return out;
}

class Verdicts {
    constructor(R) {
        this.R = R;
        this.srv = new Server({
            mid: 24,
            joinLists: true,
            keep: (e) => e.t === 'finding' || e.t === 'rulefail' || e.t === 'asked' || (e.t === 'load' && !!this.mode && this.mode.loads),
            decide: (v) => (v.k === 'sym' && /^global:process\.env/.test(v.key) ? false : undefined),
            valueKey: (st, v) => (this.mode ? this.outline(st, v) : ''),
            intercept: (f, thisv, args, st, node, I) => (this.mode ? this.rule(f, args, st, I) : null),
        });
        this.I = this.srv.I;
        this.types = findingTypes(this.srv.files);
        this.tools = tools(this.srv);
        this.srv.opaqueData = ['next_actions', 'ruleId'];
        this.rules = this.collect();
    }
    // functions that return lists of findings: [{mod, node, name, fn}]
    collect() {
        const out = new Map();
        for (const mod of this.srv.files)
            for (const [name, d] of this.I.info(mod).decls) {
                if (d.kind !== 'fn') continue;
                const fn = d.node;
                let t = fn.type;
                if (t && ts.isTypeReferenceNode(t) && t.typeName.getText() === 'Promise') t = t.typeArguments[0];
                if (!t) continue;
                // a bare list of findings, or an intermediate result carrying one
                const rest = this.list(t) ? null : this.carrier(t);
                if (!this.list(t) && !rest) continue;
                out.set(fn, { rest, mod, node: fn, name, fn: this.I.modVar(mod, name), async: !!fn.modifiers && fn.modifiers.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword) });
            }
        return out;
    }
    list(t) {
        return ts.isArrayTypeNode(t) && ts.isTypeReferenceNode(t.elementType) && this.types.has(t.elementType.typeName.getText());
    }
    // members of a result type that carries findings but no verdict of its own: {member, others}
    carrier(t) {
        let members = ts.isTypeLiteralNode(t) ? t.members : null;
        if (ts.isTypeReferenceNode(t))
            for (const m of this.srv.files)
                ts.forEachChild(m.sf, (n) => {
                    if (ts.isInterfaceDeclaration(n) && n.name.text === t.typeName.getText() && !n.heritageClauses) members = n.members;
                });
        if (!members) return null;
        const ms = members.filter((x) => ts.isPropertySignature(x) && x.type);
        const of = ms.find((x) => this.list(x.type));
        if (!of || ms.some((x) => ['status', 'valid'].includes(x.name.getText()))) return null;
        return { member: of.name.getText(), others: ms.filter((x) => x !== of).map((x) => ({ name: x.name.getText(), list: ts.isArrayTypeNode(x.type), optional: !!x.questionToken })) };
    }
    // outcome of a rule called by the function under analysis
    rule(f, args, st, I) {
        const r = this.rules.get(f.node);
        if (!r || r === this.mode.target) return null;
        this.called.add(r);
        I.event(st, { t: 'asked', rule: r });
        const wrap = (list) => {
            const v = r.rest ? I.mkObj(st, [[r.rest.member, list], ...r.rest.others.map((x) => [x.name, x.list ? I.mkArr(st, []) : Sym(`${r.name}.${x.name}`, { nonnull: !x.optional })])]) : list;
            return r.async ? { k: 'promise', v } : v;
        };
        if (this.mode.rule !== r) return [{ s: st, v: wrap(I.mkArr(st, [])) }];
        if (this.mode.kind === 'fails') {
            I.event(st, { t: 'rulefail', rule: r });
            const e = this.srv.error(st, Sym('failure', { nonnull: true }));
            return [r.async ? { s: st, v: { k: 'promise', rejected: true, v: e } } : { s: st, c: 'throw', v: e }];
        }
        I.event(st, { t: 'finding', rule: r });
        const finding = (id, severity) =>
            I.mkObj(st, [
                ['ruleId', Lit(id)],
                ['severity', Lit(severity)],
                ['message', Lit('the finding')],
                ['suggestion', Lit('')],
            ]);
        // a warning somewhere in a list of unknown length; an error before or after a warning
        const others = (n) => ({ ...Sym(`...others${n}`), spreadOf: Sym(`others${n}`, { nonnull: true }) });
        const x = finding('the rule', this.mode.kind);
        const list = this.mode.kind === 'warning' ? [others(1), x, others(2)] : this.mode.last ? [finding('another rule', 'warning'), x] : [x, finding('another rule', 'warning')];
        return [{ s: st, v: wrap(I.mkArr(st, list)) }];
    }
    outline(st, v, d = 0) {
        if (!v) return '';
        if (v.k === 'promise') return this.outline(st, v.v, d);
        if (v.k === 'lit') return String(v.v).slice(0, 40);
        if (v.k === 'arr') return `[${d > 3 ? '' : ((this.I.getCell(st, v.id) || {}).elems || []).map((x) => this.outline(st, x, d + 1)).join()}]`;
        if (v.k !== 'obj') return v.k === 'sym' && !v.phi ? '?' : v.k;
        const c = this.I.getCell(st, v.id);
        if (!c || !c.props) return 'obj';
        const keep = ['status', 'valid', 'issues', 'structuredContent', 'severity', 'ruleId'].filter((n) => c.props.has(n));
        return `{${keep.map((n) => `${n}:${this.outline(st, c.props.get(n), d + 1)}`).join()}}`;
    }
    alternatives(st, v, out = []) {
        if (v && v.k === 'obj' && this.I.getCell(st, v.id)) out.push(v);
        else if (v && v.phi) for (const x of v.phi) this.alternatives(st, x, out);
        return out;
    }
    member(st, o, name) {
        const r = o && o.k === 'obj' ? this.I.getMember(st.clone(), o, name, null, {}) : [];
        return r.length ? r[0].v : null;
    }
    // findings in a list: {known, unknown}
    findings(st, v, out = { known: [], unknown: 0 }, d = 0) {
        if (!v || d > 8) return out;
        if (v.k === 'arr') {
            const c = this.I.getCell(st, v.id);
            const els = c && c.elems;
            if (!els) out.unknown++;
            for (const e of els || []) this.findings(st, e, out, d + 1);
        } else if (v.k === 'obj') out.known.push(v);
        else if (v.k === 'promise') this.findings(st, v.v, out, d + 1);
        else if (v.k === 'sym') {
            const parts = v.phi || (v.spreadOf ? [v.spreadOf] : v.elem ? [v.elem] : v.cbVals ? v.cbVals : this.carried(v));
            for (const p of parts) this.findings(st, p, out, d + 1);
            if (!v.phi && !v.spreadOf) out.unknown++;
        }
        return out;
    }
    // lists whose elements all appear in this one
    carried(v) {
        const all = ['flat', 'sort', 'reverse', 'toSorted', 'toReversed', 'concat', 'values'];
        return v.call && all.includes(v.call.name) && v.call.recv ? [v.call.recv, ...(v.call.name === 'concat' ? v.call.args : [])] : [];
    }
    has(st, v) {
        const f = this.findings(st, v);
        if (v && v.k === 'obj' && this.mode.target && this.mode.target.rest) return this.has(st, this.member(st, v, this.mode.target.rest.member));
        return f.known.some((x) => {
            const r = this.member(st, x, 'ruleId');
            return r && r.k === 'lit' && r.v === 'the rule';
        });
    }
    line(x) {
        return { file: x.mod.rel, line: L.lineOf(x.mod, x.node.getStart(x.mod.sf)) };
    }
    // every case for a function under analysis: nothing found, then each rule in turn finding or failing
    cases(target, run) {
        this.called = new Set();
        this.union = new Set();
        this.mode = { target, rule: null, kind: '' };
        run();
        const base = this.union;
        const rules = [...this.called];
        for (const rule of rules)
            for (const [kind, last] of [['error', false], ['error', true], ['warning'], ['fails']]) {
                this.R.count('cases_followed');
                this.mode = { target, rule, kind, last };
                this.union = new Set();
                run();
                // a rule that is asked when nothing is found is still asked after another one only warned
                if (kind !== 'warning') continue;
                const at = target || this.at;
                for (const r of base) if (!this.union.has(r)) this.R.violation({ ...this.line(at), key: `${at.name} skips ${r.name}`, message: `${at.name} does not run ${r.name} once ${rule.name} reported a warning` });
            }
        this.mode = null;
        return rules;
    }
    compose() {
        for (const g of this.rules.values()) {
            this.R.count('rule_functions');
            const r = this.srv.reach.of(g.mod, g.node);
            // a rule that neither loads data nor asks other rules has nothing to lose
            if (!r.fetch && ![...r.fns].some((n) => this.rules.has(n))) continue;
            const rules = this.cases(g, () => {
                const st = this.srv.fresh();
                const args = g.node.parameters.map((p) => Sym(`arg:${p.name.getText()}`, { input: true, nonnull: !p.questionToken && !p.initializer }));
                for (const o of this.srv.run(g.fn, args, st)) this.composed(g, o);
            });
            this.R.count('rules_composed', rules.length);
        }
    }
    // what a rule consults does not depend on whether the version was given or read from a package file
    sources() {
        const typed = (p) => p.type && /\bVersionContext\b/.test(p.type.getText());
        for (const g of this.rules.values()) {
            if (!g.node.parameters.some(typed)) continue;
            this.R.count('version_rules');
            const consults = (given) => {
                this.mode = { target: g, rule: null, kind: '', loads: true };
                this.called = new Set();
                this.union = new Set();
                const st = this.srv.fresh();
                const id = (k) => Sym(k, { nonnull: true, ident: k });
                const ctx = () =>
                    this.I.mkObj(st, [
                        ['source', Lit(given ? 'input' : 'packageJson')],
                        ['requestedVersion', given ? id('version') : U],
                        ['packageVersionRange', given ? U : id('range')],
                        ['detectedVersion', id('version')],
                        ['resolvedRef', id('revision')],
                        ['fallbackRef', U],
                        ['warnings', this.I.mkArr(st, [])],
                    ]);
                const args = g.node.parameters.map((p) => (typed(p) ? ctx() : Sym(`arg:${p.name.getText()}`, { input: true, nonnull: !p.questionToken && !p.initializer })));
                const out = new Set();
                for (const o of this.srv.run(g.fn, args, st)) for (const e of o.s.events()) if (e.t === 'load') out.add(e.fn); else if (e.t === 'asked') out.add(e.rule.name);
                this.mode = null;
                return out;
            };
            const a = consults(true), b = consults(false);
            for (const n of a) if (!b.has(n)) this.R.violation({ ...this.line(g), key: `${g.name} by source ${n}`, message: `${g.name} consults ${n} only when the version was given directly, not when it was read from a package file` });
            for (const n of b) if (!a.has(n)) this.R.violation({ ...this.line(g), key: `${g.name} by source ${n}`, message: `${g.name} consults ${n} only when the version was read from a package file, not when it was given directly` });
        }
    }
    // a rule goes through everything it iterates over: leaving a loop that reports findings, without one, leaves the rest unchecked
    exhaustive() {
        for (const g of this.rules.values()) {
            const loops = [];
            const body = (n, f) => ts.forEachChild(n, (c) => { if (!ts.isFunctionLike(c)) { f(c); body(c, f); } });
            body(g.node, (n) => { if (ts.isForOfStatement(n) || ts.isForInStatement(n) || (ts.isForStatement(n) && n.condition)) loops.push(n); });
            const reports = (n) => {
                let yes = false;
                const v = (c) => {
                    if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(c.expression) && ['push', 'unshift'].includes(c.expression.name.text)) yes = true;
                    if (!ts.isFunctionLike(c)) ts.forEachChild(c, v);
                };
                v(n);
                return yes;
            };
            for (const loop of loops) {
                if (!reports(loop.statement)) continue;
                this.R.count('reporting_loops');
                const leaves = (n, inner) => {
                    if (ts.isFunctionLike(n)) return;
                    const nested = inner || ts.isIterationStatement(n, false) || ts.isSwitchStatement(n);
                    const exit = (ts.isBreakStatement(n) && !n.label && !inner) || (ts.isReturnStatement(n) && n.expression && ts.isIdentifier(n.expression));
                    if (exit) {
                        let list = n.parent;
                        const before = ts.isBlock(list) ? list.statements.slice(0, list.statements.indexOf(n)) : [];
                        if (!before.some(reports)) this.R.violation({ file: g.mod.rel, line: L.lineOf(g.mod, n.getStart(g.mod.sf)), key: `${g.name} stops early`, message: `${g.name} stops going through its items without reporting anything, so the rest is never checked` });
                        return;
                    }
                    ts.forEachChild(n, (c) => leaves(c, nested));
                };
                ts.forEachChild(loop.statement, (c) => leaves(c, false));
            }
        }
    }
    asked(es) {
        if (!this.mode.rule || es.some((e) => e.t === 'finding')) for (const e of es) if (e.t === 'asked') this.union.add(e.rule);
    }
    composed(g, o) {
        this.R.count('paths_followed');
        const { rule, kind } = this.mode;
        const es = o.s.events();
        if (!o.rejected && !es.some((e) => e.t === 'loadfail')) this.asked(es);
        const lost = es.find((e) => e.t === 'loadfail');
        if (lost && !o.rejected && !this.has(o.s, o.v) && !this.findings(o.s, o.v).known.some((x) => this.isError(o.s, x)))
            this.R.violation({ ...this.line(g), key: `${g.name} without ${lost.fn}`, message: `${g.name} returns normally with no error when the data it needs (${lost.fn}) could not be loaded` });
        if (!rule) return;
        if (es.some((e) => e.t === 'rulefail')) {
            if (!o.rejected) this.R.violation({ ...this.line(g), key: `${g.name} swallows ${rule.name}`, message: `${g.name} counts ${rule.name} as passed when it could not be evaluated` });
        } else if (!o.rejected && es.some((e) => e.t === 'finding') && !this.has(o.s, o.v))
            this.R.violation({ ...this.line(g), key: `${g.name} drops ${rule.name} ${kind}`, message: `${g.name} leaves out a finding (${kind}) of ${rule.name}` });
    }
    isError(st, x) {
        const s = this.member(st, x, 'severity');
        return !!s && s.k === 'lit' && s.v === 'error';
    }
    // tools whose answer carries findings and a verdict
    verdicts() {
        for (const t of this.tools) {
            if (!t.output || !t.output.shape.valid || !t.output.shape.issues) continue;
            this.R.count('verdict_tools');
            const first = Object.keys(t.input.shape).filter((n) => t.input.shape[n].type === 'enum').slice(0, 1);
            this.at = t;
            for (const i of inputs(t, first)) {
                this.R.count('input_classes');
                this.blank(t, i);
                this.cases(null, () => {
                    const st = this.srv.fresh();
                    for (const o of this.srv.run(t.handler, [i.make(this.srv, st)], st)) if (!o.rejected) for (const r of this.alternatives(o.s, o.v)) for (const d of this.alternatives(o.s, this.member(o.s, r, 'structuredContent'))) this.verdict(t, i, o, d);
                });
            }
        }
    }
    // text that is only blanks is nothing to check where absent text is
    blank(t, i) {
        for (const [n, f] of Object.entries(t.input.shape)) {
            if (f.type !== 'string') continue;
            const skips = (v) => {
                this.mode = { target: null, rule: null, kind: '' };
                this.called = new Set();
                const st = this.srv.fresh();
                let yes = false, only = true;
                for (const o of this.srv.run(t.handler, [i.make(this.srv, st, { [n]: v })], st))
                    if (!o.rejected)
                        for (const r of this.alternatives(o.s, o.v))
                            for (const d of this.alternatives(o.s, this.member(o.s, r, 'structuredContent'))) {
                                const x = this.member(o.s, d, 'status');
                                yes = yes || !x || x.k !== 'lit' || x.v === 'skipped';
                                only = only && !!x && x.k === 'lit' && (x.v === 'skipped' || x.v === 'error');
                            }
                this.mode = null;
                return { yes, only: yes && only };
            };
            // only text without which nothing is ever checked
            const alone = skips(U).only;
            if (alone) this.R.count('blank_texts');
            if (alone && !skips(Lit(' ')).yes) this.R.violation({ ...this.line(t), key: `${t.name} blank ${n}`, message: `${t.name} (${i.name}): a blank ${n} is not reported as skipped although an absent one is` });
        }
    }
    verdict(t, i, o, d) {
        this.R.count('verdicts_checked');
        const bad = (key, message) => this.R.violation({ ...this.line(t), key: `${t.name} ${key}`, message: `${t.name} (${i.name}): ${message}` });
        const lit = (n) => {
            const v = this.member(o.s, d, n);
            return v && v.k === 'lit' ? v.v : undefined;
        };
        const status = lit('status'), valid = lit('valid');
        const f = this.findings(o.s, this.member(o.s, d, 'issues'));
        const es = o.s.events();
        const { rule, kind } = this.mode;
        if (!es.some((e) => e.t === 'loadfail')) this.asked(es);
        if (valid === true && !es.some((e) => e.t === 'asked')) bad('success without rules', 'says valid although no rule ran');
        if (status === undefined || valid === undefined) this.R.count('undetermined_verdicts');
        if (valid === true && status !== undefined && status !== 'ok') bad(`valid ${status}`, `says valid with the outcome "${status}"`);
        if (valid === false && status === 'ok') bad('ok invalid', 'says the check succeeded although the code is not valid');
        if (valid !== false && f.known.some((x) => this.isError(o.s, x))) bad('valid with errors', 'does not say invalid although a finding is an error');
        if (es.some((e) => e.t === 'finding')) {
            if (!this.has(o.s, this.member(o.s, d, 'issues'))) bad(`drops ${rule.name}`, `leaves out a finding (${kind}) of ${rule.name}`);
            if (kind === 'error' && valid !== false) bad(`passes ${rule.name}`, `does not say invalid when ${rule.name} reports an error`);
        }
        if (es.some((e) => e.t === 'rulefail' || e.t === 'loadfail') && (valid !== false || status === 'ok' || status === 'skipped')) bad(`unevaluated ${status}`, `answers "${status}" although ${rule && kind === 'fails' ? rule.name : 'the data a rule needs'} failed`);
        // nothing wrong anywhere: must not be called invalid
        if (!f.unknown && !f.known.some((x) => this.isError(o.s, x)) && status === 'error' && !es.some((e) => e.t === 'rulefail' || e.t === 'loadfail')) bad('error without findings', 'answers "error" although no finding is an error and nothing failed');
        if (status === 'skipped' && this.ran(es)) bad('skipped after findings', 'answers "skipped" although a rule reported something');
        for (const x of f.known) {
            this.R.count('findings_checked');
            const id = this.member(o.s, x, 'ruleId');
            if (!id || (id.k === 'lit' && !id.v)) bad('nameless', 'a finding does not name its rule');
        }
    }
    ran(es) {
        return es.some((e) => e.t === 'finding');
    }
}

function run() {
    const R = report('M05');
    const a = new Verdicts(R);
    a.verdicts();
    a.compose();
    a.sources();
    a.exhaustive();
    R.require('verdict_tools', 1);
    R.require('verdicts_checked', 4);
    R.require('rule_functions', 1);
    for (const r of a.rules.values()) R.sample(`${r.mod.rel}: ${r.name}`);
    R.stats(a.I.stats);
    return R.result({
        rule: 'For every path of the validating tool: an error among the findings makes the answer invalid, no error and no failure makes it valid, a rule or load that fails never yields success or "skipped", and no function between a rule and the answer drops a finding or a failure.',
        explanation: 'The validating handler and every function returning a list of findings are interpreted abstractly with opaque text; each rule called is made, one at a time, to report an error, report a warning, or fail, and repository data may fail to load at every call.',
        assumptions: ['What an individual rule recognises in a text is not judged; only how its findings and failures reach the verdict.'],
    });
}
module.exports = { run };
