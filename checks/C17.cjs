'use strict';
// C17: label, control and messages of a field belong together.
const path = require('path');
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, U, Sym, Lit, TRUE, FALSE } = A;
const { Sim } = require('../lib/effects.cjs');
const { Unit, Id } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');

const EDITABLE = new Set(['input', 'textarea', 'select', 'button']);
const FORWARDED = ['label', 'required', 'noLabel', 'noMessages'];
const isWrapper = (inst) => /VsInputWrapper$/.test(inst.def.name || path.basename(inst.mod.path, '.vue'));

// a message with a text that is an opaque identity
const message = (I, st, name) => I.mkObj(st, [['text', Id(name)], ['state', Id(`${name}.state`)]]);
function named(I, st, e) {
    const c = e.k === 'obj' ? I.getCell(st, e.id) : null;
    const t = c && c.props && c.props.get('text');
    return t && t.ident ? t.ident : e.ident || null;
}

class Field {
    constructor(R, f) {
        this.R = R;
        this.file = L.rel(f);
        this.name = path.basename(f, '.vue');
        this.sim = new Sim({ keepEvent: () => false, soft: 3000, mid: 3000, hard: 6000 });
        this.sim.load(f);
        this.I = this.sim.I;
        this.w = this.sim.world;
        this.top = this.sim.top;
        R.count('components');
    }
    bad(line, key, message) {
        this.R.violation({ file: this.file, line: line || 1, key: `${this.name} ${key}`, message: `${this.name}: ${message}` });
    }
    // states in which an element or component is rendered
    shown(conds, st) {
        return this.w.assumeConds(st || this.sim.state(), conds);
    }
    value(e, name, s) {
        const outs = this.w.attrValue(s, e.el, e.inst, e.locals, name, e.root ? e.inst.attrs : null);
        return outs ? outs.filter((o) => !o.c) : null;
    }
    plain(s, v) {
        return keyOf(this.I.norm(s, v));
    }
    has(name) {
        return this.top.def.props.has(name);
    }
    // every label names an editable element that is rendered with it
    labels() {
        const { R } = this;
        const own = this.sim.b.elements.filter((e) => e.inst === this.top);
        for (const l of own) {
            if (l.el.tag !== 'label' || !this.w.attrInfo(l.el, 'for')) continue;
            R.count('labels');
            R.sample(`${this.name}: label at ${this.file}:${l.el.loc.start.line}`);
            const inLoop = l.locals.length;
            for (const s of this.shown(l.conds))
                for (const o of this.value(l, 'for', s)) {
                    R.count('label_states');
                    const want = this.plain(o.s, o.v);
                    const targets = own.filter((e) => EDITABLE.has(e.el.tag) && this.w.attrInfo(e.el, 'id') && (!inLoop || e.locals.length >= inLoop));
                    const hit = targets.some((e) => {
                        const sts = this.shown(e.conds, o.s.clone());
                        return sts.length && sts.every((s2) => ((r) => r.length && r.every((x) => this.plain(x.s, x.v) === want))(this.value(e, 'id', s2)));
                    });
                    if (!hit) return this.bad(l.el.loc.start.line, 'label', `the label refers to ${want}, which is not the identifier of the control rendered with it`);
                }
        }
    }
    // the identifier the application supplies is the one used, otherwise a generated one that stays the same
    identifier() {
        const { R } = this;
        if (!this.has('id')) return;
        const own = this.sim.b.elements.filter((e) => e.inst === this.top);
        for (const e of own) {
            if (!EDITABLE.has(e.el.tag) || !this.w.attrInfo(e.el, 'id')) continue;
            if (e.locals.length) continue;
            R.count('controls');
            for (const given of [true, false]) {
                const id = given ? Id('given-id') : Lit('');
                const scn = { props: (inst, n) => (inst === this.top && n === 'id' ? id : null) };
                this.sim.under(scn, () => {
                    for (const s of this.shown(e.conds)) {
                        const keys = new Set();
                        for (const o of this.value(e, 'id', s)) {
                            R.count('identifiers');
                            const v = this.I.norm(o.s, o.v);
                            const k = keyOf(v);
                            keys.add(k);
                            if (given && !v.ident) this.bad(e.el.loc.start.line, 'given id', `a supplied identifier is not the identifier of the control (it is ${k})`);
                            if (!given && (v.k === 'lit' || v.nullOf !== undefined)) this.bad(e.el.loc.start.line, 'generated id', `without a supplied identifier the control gets ${k}`);
                        }
                        if (keys.size > 1) this.bad(e.el.loc.start.line, 'several ids', 'the identifier of the control is not determined');
                    }
                });
            }
        }
        // identifiers inside loops tell the items apart
        for (const e of own) {
            if (!e.locals.some((l) => l.kind === 'for') || !this.w.attrInfo(e.el, 'id')) continue;
            for (const s of this.shown(e.conds)) for (const o of this.value(e, 'id', s) || []) this.apart(e.el.loc.start.line, e.locals, o);
        }
        for (const c of this.sim.b.all) {
            if (c.parent !== this.top || !c.el || !c.bindings || !c.bindings.has('id')) continue;
            const locals = c.slotLocals || [];
            if (!locals.some((l) => l.kind === 'for')) continue;
            for (const s of this.shown(c.conds)) for (const o of c.readProp('id', s, this.I)) this.apart(c.el.loc.start.line, locals, o);
        }
    }
    apart(line, locals, o) {
        this.R.count('repeated_identifiers');
        const k = this.plain(o.s, o.v);
        if (!/for:|elem|\[\*\]|\.[ik]\b|loop:/.test(k) && !/\[/.test(k)) this.bad(line, 'repeated id', `every repetition gets the same identifier ${k}`);
    }
    // what is given to the control reaches the wrapper
    wrapper() {
        const { R, I } = this;
        const ws = this.sim.b.all.filter((c) => c.parent === this.top && isWrapper(c));
        if (!ws.length) return;
        for (const c of ws) {
            R.count('wrappers');
            const line = c.el.loc.start.line;
            for (const p of FORWARDED) {
                if (!this.has(p)) continue;
                R.count('forwarded');
                for (const given of p === 'label' ? [Id('given-label'), Lit('')] : [TRUE, FALSE]) {
                    this.sim.under({ props: (inst, n) => (inst === this.top && n === p ? given : null) }, () => {
                        for (const s of this.shown(c.conds))
                            for (const o of c.readProp(p, s, I)) {
                                const v = I.norm(o.s, o.v);
                                if (keyOf(v) !== keyOf(given)) this.bad(line, `forward ${p}`, `'${p}' given as ${keyOf(given)} reaches the wrapper as ${keyOf(v)}`);
                            }
                    });
                }
            }
            if (this.has('hidden')) {
                R.count('forwarded');
                for (const given of [TRUE, FALSE])
                    this.sim.under({ props: (inst, n) => (inst === this.top && n === 'hidden' ? given : null) }, () => {
                        const vis = this.shown(c.conds).length > 0;
                        if (vis === given.v) this.bad(line, 'hidden', given.v ? 'a hidden control is still shown' : 'a control that is not hidden is not shown');
                    });
            }
            if (this.has('messages')) this.messages(c, line);
        }
    }
    // a message given to the control is among those the wrapper is told to show
    messages(c, line) {
        const { R, I } = this;
        const mount = this.sim.hooks('onBeforeMount', 'onMounted').filter((h) => h.inst === this.top);
        const give = (inst, n, st) => {
            if (inst !== this.top) return null;
            if (n === 'messages') return I.mkArr(st, [message(I, st, 'given-message')]);
            // validation does not matter here
            return n === 'rules' ? I.mkArr(st, []) : n === 'noDefaultRules' ? TRUE : null;
        };
        this.sim.under({ props: give, pins: null }, () => {
            let outs = [{ s: this.sim.state() }];
            for (const h of mount) outs = this.sim.finish(I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node).map((o) => ({ s: o.s, v: U }))));
            let n = 0;
            for (const o of outs) {
                for (const x of c.readProp('messages', o.s.clone(), I)) {
                    if (x.c) continue;
                    n++;
                    R.count('message_states');
                    const v = I.norm(x.s, x.v);
                    const es = v.k === 'arr' ? I.elements(x.s, v) : null;
                    if (es ? !es.some((e) => named(I, x.s, e) === 'given-message') : !this.mentions(x.s, v)) {
                        this.bad(line, 'messages', `a message given to the control is not shown (the wrapper gets ${es ? `[${es.map(keyOf)}]` : keyOf(v)})`);
                        return;
                    }
                }
            }
            if (!n) this.bad(line, 'messages', 'the wrapper gets no messages');
        });
    }
    // a list that is only partly known
    mentions(s, v) {
        const c = v.k === 'arr' ? this.I.getCell(s, v.id) : null;
        const part = (e) => !!e && (named(this.I, s, e) === 'given-message' || /given-message/.test(keyOf(e)) || (e.spreadOf ? part(this.I.norm(s, e.spreadOf)) : e.phi ? e.phi.every(part) : e.k === 'arr' && this.mentions(s, e)));
        return c ? (c.elems || []).some(part) : v.phi ? v.phi.every(part) : /given-message/.test(keyOf(v));
    }
    // the wrapper shows exactly what is not switched off
    display() {
        const { R, I, w } = this;
        const els = this.sim.b.elements.filter((e) => e.inst === this.top);
        const msgs = this.sim.b.all.filter((c) => c.parent === this.top && /VsMessage$/.test(path.basename(c.mod.path, '.vue')));
        const text = els.filter((e) => (e.el.children || []).some((c) => c.type === 5));
        const given = { label: Id('given-label'), required: FALSE, noLabel: FALSE, noMessages: FALSE, groupLabel: FALSE };
        const at = (over, f) =>
            this.sim.under(
                {
                    props: (inst, n, st) => {
                        if (inst !== this.top) return null;
                        if (n === 'messages') return Sym('given-messages', { nonnull: true });
                        const x = { ...given, ...over }[n];
                        return x && x.k ? x : null;
                    },
                },
                f,
            );
        const labelShown = (over) => at(over, () => text.some((e) => this.shown(e.conds).some((s) => (e.el.children || []).some((c) => c.type === 5 && w.evExp(c.content, s.clone(), w.tplEnv(s, e.inst, e.locals), e.inst).some((o) => !o.c && this.plain(o.s, o.v) === keyOf(given.label))))));
        const line = 1;
        const say = (ok, key, message) => {
            R.count('display_cases');
            if (!ok) this.bad(line, key, message);
        };
        say(labelShown({}), 'label text', 'the label text is not shown');
        say(!labelShown({ noLabel: TRUE }), 'no label', 'the label text is shown although labels are switched off');
        for (const g of [TRUE, FALSE]) {
            const vis = (over) => at({ groupLabel: g, ...over }, () => els.filter((e) => this.shown(e.conds).length));
            const without = new Set(vis({}));
            const mark = vis({ required: TRUE }).filter((e) => !without.has(e));
            say(mark.length > 0, 'required mark', 'nothing marks a required control');
            const off = new Set(vis({ required: TRUE, noLabel: TRUE }));
            say(!mark.some((e) => off.has(e)), 'required no label', 'the required mark is shown although labels are switched off');
        }
        const listed = (over) =>
            at(over, () =>
                msgs.some((c) =>
                    this.shown(c.conds).some((s) =>
                        ['text', 'state'].every((p) => c.readProp(p, s.clone(), I).some((o) => !o.c && this.plain(o.s, o.v) === `given-messages[*].${p}`)),
                    ),
                ),
            );
        say(listed({}), 'message', 'a message is not shown with its text and state');
        say(!listed({ noMessages: TRUE }), 'no messages', 'messages are shown although they are switched off');
    }
}

// The lists of messages and of failed rules: each current one exactly once, nothing of an earlier list after it was
// replaced, even when it arrives later. Messages and texts are opaque identities.
//   m: message, f: function giving one, p: function giving one later, -: rule that passes, ~: rule that passes later
const LISTS = [['m1'], ['m1', 'm2'], ['f1'], ['f1', 'm2'], ['p1'], ['m1', 'p2'], ['p1', 'm2', 'f3'], ['p1', 'p2'], []];
const RULES = [['f1'], ['f1', 'f2'], ['p1'], ['f1', 'p2'], ['p1', '-', 'f3'], ['p1', '~', 'p3'], ['-', '~'], []];
const again = (l) => l.map((n) => n.replace(/\d/, (d) => Number(d) + 5));

class Lists {
    constructor(R, name) {
        this.R = R;
        this.during = null;
        this.u = new Unit({
            keepEvent: () => false,
            awaitThrows: () => false,
            maxRec: 6,
            // texts are not promises
            decide: (v) => (v.instOf !== undefined ? false : undefined),
            duringAwait: (st) => {
                const f = this.during;
                if (!f) return null;
                this.during = null;
                const outs = f(st);
                this.during = f;
                return outs;
            },
        });
        this.I = this.u.I;
        this.fn = this.u.val('composables', name);
        this.seen = new Set();
    }
    say(key, message) {
        if (this.seen.has(key)) return;
        this.seen.add(key);
        this.R.violation({ file: this.fn.mod.rel, line: this.u.line(this.fn), key: `messages ${key}`, message });
    }
    ref(s, v) {
        return { k: 'ref', id: this.I.alloc(s, { t: 'ref', value: v }) };
    }
    set(s, ref, v) {
        s.live.set(ref.id, { ...this.I.getCell(s, ref.id), value: v });
    }
    supplier(s, n, give) {
        if (n[0] === 'm') return give(s, n);
        const late = n[0] === 'p' || n[0] === '~';
        const out = /^[-~]/.test(n) ? Lit('') : give(s, n);
        return { k: 'native', name: n, key: `give:${n}`, impl: (I, st) => [{ s: st, v: late ? { k: 'promise', v: out } : out }] };
    }
    names(s, v) {
        const a = this.I.norm(s, v);
        const es = a.k === 'arr' ? this.I.elements(s, a) : null;
        return es ? es.map((e) => named(this.I, s, e) || keyOf(e)).sort().join() : `? ${keyOf(a)}`;
    }
    drain(outs) {
        return this.I.bind(outs, (s, v) => (s.deferred.length ? this.I.drain(s).map((o) => ({ s: o.s, v })) : [{ s, v }]));
    }
    read(s, api, name) {
        return this.I.bind(this.I.getMember(s, api, name, null, {}), (s2, r) => this.I.readRef(s2, r, null));
    }
    // first: the list at the start; then: the list it is replaced by, if any; late: while results of the first are awaited
    follow(first, then, late, { args, list, give, check, result, extra, want }) {
        const { u, I, R } = this;
        R.count('message_histories');
        const s = u.state();
        const fill = (st, l) => I.mkArr(st, l.map((n) => this.supplier(st, n, give)));
        const cell = this.ref(s, fill(s, first));
        const made = u.call(this.fn, args(s, cell), s);
        const run = (s1, api) => I.bind(u.send(s1, api, check, []), (s2) => [{ s: s2, v: api }]);
        let outs = I.bind(made, (s1, api) => {
            const replace = (s2) => (this.set(s2, cell, fill(s2, again(then))), I.bind(run(s2, api), (s3) => [{ s: s3, v: U }]));
            let happened = !late;
            if (late)
                this.during = (s2) => {
                    happened = true;
                    return replace(s2);
                };
            const r = run(s1, api);
            this.during = null;
            return then && (!late || !happened) ? I.bind(r, (s2) => I.bind(replace(s2), (s3) => [{ s: s3, v: api }])) : r;
        });
        outs = I.bind(this.drain(outs), (s1, api) => (extra ? extra(s1, api) : this.read(s1, api, result)));
        const expect = want(then ? again(then) : first);
        if (!outs.length) this.say('none', 'the list of messages cannot be determined');
        for (const o of outs) {
            if (o.c) continue;
            R.count('message_list_states');
            const got = this.names(o.s, o.v);
            if (got !== expect) this.say('list', `${then ? `after [${first}] was replaced by [${again(then)}]${late ? ' while results were awaited' : ''}` : `for [${first}]`} the list holds [${got}] instead of [${expect}]`);
        }
    }
}
function lists(R) {
    const m = new Lists(R, 'useInputMessages');
    const id = (s, n) => message(m.I, s, n);
    for (const show of [true, false])
        for (const first of LISTS)
            for (const then of [null, ...LISTS])
                for (const late of then && first.some((n) => n[0] === 'p') ? [false, true] : [false]) {
                    const failed = ['rule 1', 'rule 2', 'rule 3'].slice(0, then ? 2 : first.length + 1);
                    m.follow(first, then, late, {
                        args: (s, cell) => [m.ref(s, Id('value')), cell, m.ref(s, m.I.mkArr(s, failed.map((n) => id(s, n))))],
                        give: id,
                        check: 'checkMessages',
                        extra: (s1, api) =>
                            m.I.bind(m.I.getMember(s1, api, 'showRuleMessages', null, {}), (s2, r) => {
                                m.set(s2, r, Lit(show));
                                return m.read(s2, api, 'computedMessages');
                            }),
                        want: (l) => [...l, ...(show ? failed : [])].sort().join(),
                    });
                }
    R.stats(m.I.stats);
    const r = new Lists(R, 'useInputRules');
    for (const off of [true, false])
        for (const first of RULES)
            for (const then of [null, ...RULES])
                for (const late of then && first.some((n) => /[p~]/.test(n)) ? [false, true] : [false])
                    r.follow(first, then, late, {
                        args: (s, cell) => [r.ref(s, Id('value')), cell, r.ref(s, r.I.mkArr(s, [r.supplier(s, 'f0', () => Id('f0'))])), r.ref(s, Lit(off))],
                        give: (s, n) => Id(n),
                        check: 'checkRules',
                        result: 'ruleMessages',
                        want: (l) => [...(off ? [] : ['f0']), ...l.filter((n) => /^[fp]/.test(n))].sort().join(),
                    });
    R.stats(r.I.stats);
}

function run() {
    const R = report();
    const only = process.env.C17_ONLY;
    for (const f of L.sourceFiles(L.UI).filter((n) => n.endsWith('.vue'))) {
        if (only && !f.includes(`/${only}.vue`)) continue;
        const x = new Field(R, f);
        x.labels();
        x.identifier();
        x.wrapper();
        if (isWrapper(x.top)) x.display();
        R.stats(x.I.stats);
    }
    if (!only || only === 'messages') lists(R);
    if (!only) {
        R.require('labels', 3);
        R.require('wrappers', 9);
        R.require('display_cases', 7);
        R.require('message_histories', 100);
    }
    return R.result({
        rule: 'Every label names the identifier of an editable element rendered in the same state; a supplied identifier is used as it is and otherwise one generated identifier; label, required, no-label, no-messages and hidden reach the wrapper unchanged in every state; a given message is among those the wrapper is told to show, and the wrapper shows exactly what is not switched off; the lists of messages and of failed rules hold each current one exactly once and none of a list that was replaced.',
        explanation: 'Abstract interpretation of every component: the bindings of labels, controls and wrapper are evaluated in every state their conditions allow, with the property under examination as an opaque identity; the list of messages is followed through every combination of immediate, computed and late messages, replaced or not.',
        assumptions: ['Results awaited by one run arrive together, before or after a later run as a whole.'],
    });
}
module.exports = { run };
