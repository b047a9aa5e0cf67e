'use strict';
// C21: a control's own rules reject exactly what is empty although required, or beyond its limits.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, Lit, U, NULL, TRUE, FALSE, keyOf } = A;
const { Sim } = require('../lib/effects.cjs');
const { Id } = require('../lib/unit.cjs');
const N = require('../lib/linear.cjs');
const { report } = require('../lib/report.cjs');

const TEXT = 'given-text', NUMBER = 'given-number', DATE = 'given-date', MIN = 'given-min', MAX = 'given-max';
const given = (key) => Sym(key, { nonnull: true, ident: key });
const derived = (key) => Sym(key, { nonnull: true, ident: key });
const CONVERTED = /(?:global:)?(?:Number|parseInt|parseFloat|String|Number\.parseInt|Number\.parseFloat|Math\.(?:floor|trunc|round|ceil))\(([^()]*?)(?:, ?(?:n:)?10)?\)(?:@\d+(?:#\d+)?)?|\(\+([^()]*?)\)|([^()]*?)\.toString\(\)(?:@\d+(?:#\d+)?)?/;
// the value behind conversions between a number and its text
function plain(k) {
    for (let i = 0; i < 6 && CONVERTED.test(k); i++) k = k.replace(CONVERTED, '$1$2$3');
    return k;
}
const COUNT = /\.length$/;

class Control {
    constructor(R, comp) {
        this.R = R;
        this.comp = comp;
        this.file = L.path.join(L.UI, 'components', comp);
        this.rel = L.rel(this.file);
        this.name = L.path.basename(comp, '.vue');
        this.at = null; // distances from the limits, size of the value
        this.sim = new Sim({
            awaitThrows: () => false,
            decide: (v, st) => {
                const r = this.decide(v, st);
                // a question about the value or its limits in terms that are not understood
                if (this.at && r === undefined && /given-/.test(keyOf(v)) && !this.understood(v)) {
                    this.open = true;
                }
                return r;
            },
            // text helpers are functions of their text
            intercept: (f, thisv, args, st, node, I) => (this.at && f.mod && /utils\/string-util/.test(f.mod.rel) && args.length ? [{ s: st, v: derived(`${I.fnName(f.node)}(${args.map(keyOf)})`) }] : null),
            onOpaque: ({ name, recv }, st) => (name === 'toString' && recv && [TEXT, NUMBER, DATE].includes(keyOf(recv)) ? [{ s: st, v: recv }] : null),
        }).load(this.file);
        this.I = this.sim.I;
        this.top = this.sim.top;
        // cells whose change the control announces as its value
        const cells = [];
        for (const w of this.sim.watcherEffects())
            if (w.emits.some((m) => m.inst === this.top && m.name === 'update:modelValue'))
                for (const d of w.deps) if (/^ref#/.test(d) && !cells.includes(Number(d.slice(4)))) cells.push(Number(d.slice(4)));
        this.cells = cells;
        this.watching = this.sim.watchers().filter((x) => x.inst === this.top && cells.some((id) => x.deps.has(`ref#${id}`)));
        if (!cells.length) throw new Error(`no value found in ${this.rel}`);
    }
    // a linear combination of the size of the value and its limits, as far as their distances tell
    size(v) {
        const { n, min, max } = this.at;
        const l = N.lin(v);
        let sum = 0, c = l.c;
        for (const [key, x] of l.t) {
            const k = plain(key);
            if (k === NUMBER || k === DATE || (COUNT.test(k) && this.isValue(k.replace(COUNT, '')))) {
                sum += x;
            } else if (k === MAX) {
                sum += x;
                c -= x * max;
            } else if (k === MIN) {
                sum += x;
                c -= x * min;
            } else return null;
        }
        return { sum, c, n };
    }
    // a question both answers of which are possible
    understood(v) {
        const q = v.lt || v.cmp || (v.eq && v.eq.of && { a: v.eq.of, b: Lit(v.eq.lit) }) || { a: v, b: Lit(0) };
        return [q.a, q.b].every((x) => x.k === 'lit' || this.size(x));
    }
    isValue(k) {
        return k === TEXT || (this.at.files && /dataTransfer|\.files\b/.test(k));
    }
    decide(v, st) {
        if (!this.at) return undefined;
        const cmp = (a, b) => {
            const x = this.size(a), y = this.size(b);
            if (!x || !y) return undefined;
            const sum = x.sum - y.sum, c = x.c - y.c;
            if (sum === 0) return c;
            // the size itself, known
            if (x.n !== undefined) return sum * x.n + c;
            // a text that is not empty
            if (this.at.some && sum === 1 && c >= 0) return 1;
            if (this.at.some && sum === -1 && c <= 0) return -1;
            return undefined;
        };
        if (v.lt) {
            const d = cmp(v.lt.a, v.lt.b);
            return d === undefined ? undefined : d < 0;
        }
        if (v.cmp) {
            const d = cmp(v.cmp.a, v.cmp.b);
            return d === undefined ? undefined : d === 0;
        }
        if (v.eq && v.eq.of) {
            const of = v.eq.of;
            if (of.typeofOf) {
                const t = { [TEXT]: 'string', [DATE]: 'string', [NUMBER]: 'number', [MIN]: 'number', [MAX]: 'number' }[plain(of.typeofOf)];
                return t === undefined ? undefined : t === v.eq.lit;
            }
            if (typeof v.eq.lit === 'number') {
                const d = cmp(of, Lit(v.eq.lit));
                if (d !== undefined) return d === 0;
            }
            if (of.ident || [TEXT, NUMBER, DATE].includes(plain(keyOf(of)))) return false;
            return undefined;
        }
        if (v.equalOf) {
            const [a, b] = v.equalOf.map((x) => this.I.norm(st, x));
            if ([a, b].some((x) => x.ident === 'an earlier value')) return false;
            const known = (x) => x.ident || x.k === 'lit';
            return known(a) && known(b) ? keyOf(a) === keyOf(b) : undefined;
        }
        if (v.k === 'sym' && /^is(Object|Array)\(/.test(v.key)) return false;
        // the user did bring files
        if (this.at.files && v.k === 'sym' && /^\$event:.*\.(dataTransfer|files)$/.test(v.key)) return true;
        if (v.instOf !== undefined) return false;
        if (v.ident && v.ident !== NUMBER) return true;
        if (v.k === 'sym' && COUNT.test(v.key) && this.isValue(v.key.replace(COUNT, ''))) return this.at.n !== undefined ? this.at.n > 0 : this.at.some ? true : undefined;
        return undefined;
    }
    under(c, f) {
        this.at = { min: 5, max: -5, ...c.at };
        this.open = false;
        try {
            const I = this.I;
            const props = { id: Lit('c'), required: FALSE, noDefaultRules: FALSE, multiple: FALSE, optionLabel: Lit(''), optionValue: Lit(''), optionsDisabled: FALSE, min: given(MIN), max: given(MAX), accept: Lit(''), disabled: FALSE, readonly: FALSE, hidden: FALSE, ...c.props };
            return this.sim.under(
                {
                    props: (inst, n, st) => {
                        if (inst !== this.top) return null;
                        if (n === 'rules' || n === 'messages') return I.mkArr(st, []);
                        if (n === 'options') return I.mkArr(st, this.choices());
                        if (n === 'modelModifiers') return I.mkObj(st, []);
                        if (n === 'modelValue' && c.value) return c.value(I, st);
                        return this.top.def.props.has(n) && props[n] ? props[n] : null;
                    },
                },
                f,
            );
        } finally {
            this.at = null;
        }
    }
    choices() {
        return [Id('chosen'), Lit(0), Lit(false), Id('chosen-0'), Id('chosen-1'), Id('chosen-2')];
    }
    // the verdict of the control once it holds the value, from the start or later
    verdict(c, later) {
        const { sim, I, top, R } = this;
        return this.under(c, () => {
            const st = sim.b.setupState.clone();
            const put = (s, v) => {
                for (const id of this.cells) s.live.set(id, { ...I.getCell(s, id), value: v });
            };
            put(st, later ? NULL : c.value(I, st));
            let outs = [{ s: st, v: U }];
            for (const h of sim.hooks('onBeforeMount', 'onMounted').filter((x) => x.inst === top)) outs = I.bind(outs, (s) => sim.finish(I.invoke(h.fn, U, [], s, h.node)));
            if (later)
                outs = I.bind(outs, (s) => {
                    const v = c.value(I, s);
                    put(s, v);
                    return this.watching.reduce((os, x) => I.bind(os, (s2) => sim.finish(I.invoke(x.w.cb, U, [v, Id('an earlier value')], s2, x.w.node))), [{ s, v: U }]);
                });
            const res = new Set();
            for (const o of I.bind(outs, (s) => I.bind(I.getMember(s, top.ret, 'validate', null, {}), (s2, fn) => I.invoke(fn, U, [], s2, null)))) {
                R.count('paths');
                const w = I.norm(o.s, o.v || U);
                res.add(o.c === 'throw' ? 'an error' : w.k === 'lit' ? w.v : keyOf(w).slice(0, 80));
            }
            return res;
        });
    }
    // whether files the user brings become the value
    intake(e, c) {
        const { sim, I, R } = this;
        const taken = new Set();
        this.under({ ...c, at: { ...c.at, files: true } }, () => {
            for (const o of sim.runEntry(e, sim.b.setupState.clone())) {
                R.count('paths');
                taken.add(this.cells.some((id) => keyOf(I.norm(o.s, I.getCell(o.s, id).value)) !== keyOf(I.norm(sim.b.setupState, I.getCell(sim.b.setupState, id).value))));
            }
        });
        return taken;
    }
    bad(c, say, line = 1) {
        this.R.violation({ file: this.rel, line, key: `${this.name}|${c.what}`, message: `${this.name} ${say} ${c.what}, it should ${c.ok ? 'accept' : 'reject'} it (${this.rel})` });
    }
    judge(c) {
        for (const later of [false, true]) {
            this.R.count('verdicts');
            const got = this.verdict(c, later);
            if (got.size === 1 && got.has(c.ok)) continue;
            if (got.has(c.ok) && this.open) {
                this.R.count('undecided');
                continue;
            }
            this.bad(c, [...got].map((x) => (x === true ? 'accepts' : x === false ? 'rejects' : `answers ${x} for`)).join(' or ') || 'gives no verdict for');
            return;
        }
    }
}

const lit = (x) => () => Lit(x);
const sym = (key) => () => given(key);
const list = (n) => (I, st) => I.mkArr(st, Array.from({ length: n }, (_, i) => Id(`chosen-${i}`)));

// required or not, for values that are empty and values that are not
function requireds(c, empty, full, props = {}, at = {}) {
    for (const req of [true, false]) {
        for (const [what, value] of empty) c.judge({ what: `${what} while ${req ? '' : 'not '}required`, value, props: { ...props, required: Lit(req) }, at: { n: 0, ...at }, ok: !req });
        for (const [what, value, more] of full) c.judge({ what: `${what} while ${req ? '' : 'not '}required`, value, props: { ...props, required: Lit(req) }, at: { ...at, ...more }, ok: true });
    }
}
// distances of the value from its limits
const NEAR = [[0, -3], [-1, -3], [1, -3], [3, 0], [3, 1], [3, -1], [0, 0], [-4, -9], [9, 4]];
const side = (d) => (d < 0 ? `${-d} below` : d > 0 ? `${d} above` : 'at');
const near = (min, max) => `${side(min)} the minimum and ${side(max)} the maximum`;
function limits(c, what, value, props = {}, at = {}) {
    for (const [min, max] of NEAR) c.judge({ what: `${what} ${near(min, max)}`, value, props, at: { ...at, min, max }, ok: min >= 0 && max <= 0 });
}
// nothing is given: only below or at the minimum
function short(c, what, value, props = {}) {
    for (const [min, max] of [[0, -3], [-1, -3], [-4, -9], [0, 0]]) c.judge({ what: `${what} ${near(min, max)}`, value, props: { ...props, required: FALSE }, at: { n: 0, min, max }, ok: min >= 0 });
}
const NOTHING = [['null', lit(null)], ['undefined', lit(undefined)]];
const FALSY = [['the choice 0', lit(0)], ['the choice false', lit(false)]];

const CONTROLS = {
    'vs-input/VsInput.vue': (c) => {
        for (const t of ['text', 'password']) {
            requireds(c, [['an empty text', lit('')], ...NOTHING], [['a text', sym(TEXT), { some: true }]], { type: Lit(t), min: Lit(0) });
            limits(c, `a ${t}`, sym(TEXT), { type: Lit(t) }, { some: true });
            short(c, 'an empty text', lit(''), { type: Lit(t) });
        }
        requireds(c, [['an empty number field', lit('')], ...NOTHING], [['a number', sym(NUMBER)], ['the number 0', lit(0), { n: 0 }]], { type: Lit('number') });
        limits(c, 'a number', sym(NUMBER), { type: Lit('number') });
    },
    'vs-textarea/VsTextarea.vue': (c) => {
        requireds(c, [['an empty text', lit('')], ...NOTHING], [['a text', sym(TEXT), { some: true }]], { min: Lit(0) });
        limits(c, 'a text', sym(TEXT), {}, { some: true });
        short(c, 'an empty text', lit(''));
    },
    'vs-select/VsSelect.vue': (c) => {
        requireds(c, NOTHING, [['a choice', sym('chosen')], ...FALSY], { multiple: FALSE });
        requireds(c, [['an empty list', list(0)], ...NOTHING], [['a list of two', list(2), { n: 2 }]], { multiple: TRUE, min: Lit(0) });
        for (const n of [1, 3]) limits(c, `a list of ${n}`, list(n), { multiple: TRUE }, { n });
        short(c, 'an empty list', list(0), { multiple: TRUE });
    },
    'vs-checkbox/VsCheckboxSet.vue': (c) => {
        requireds(c, [['an empty list', list(0)]], [['a list of two', list(2), { n: 2 }]], { min: Lit(0) });
        for (const n of [1, 3]) limits(c, `a list of ${n}`, list(n), {}, { n });
        short(c, 'an empty list', list(0));
    },
    'vs-radio/VsRadioSet.vue': (c) => requireds(c, NOTHING, [['a choice', sym('chosen')], ...FALSY]),
    'vs-checkbox/VsCheckbox.vue': (c) => ticks(c),
    'vs-switch/VsSwitch.vue': (c) => ticks(c),
    'vs-date-picker/VsDatePicker.vue': (c) => {
        requireds(c, [['no date', lit('')]], [['a date', sym(DATE)]]);
        limits(c, 'a date', sym(DATE));
    },
    'vs-file-drop/VsFileDrop.vue': (c) => {
        requireds(c, [['no file', list(0)]], [['a file', list(1), { n: 1 }]], { min: Lit(0), multiple: TRUE });
        const cases = [];
        for (const n of [1, 2]) for (const multiple of [true, false]) cases.push({ what: `${n} file(s) while ${multiple ? 'several are' : 'one is'} allowed`, props: { multiple: Lit(multiple), min: Lit(0) }, at: { n }, ok: multiple || n === 1 });
        for (const [min, max] of NEAR) cases.push({ what: `files ${near(min, max)}`, props: { multiple: TRUE }, at: { some: true, min, max }, ok: min >= 0 && max <= 0 });
        const entries = c.sim.b.entries.filter((e) => e.inst === c.top && c.intake(e, { at: { n: 1 }, props: { multiple: TRUE, min: Lit(0) } }).has(true));
        for (const e of entries)
            for (const x of cases) {
                c.R.count('intakes');
                const got = c.intake(e, x);
                if (got.has(x.ok) && c.open) c.R.count('undecided');
                else if (got.size !== 1 || !got.has(x.ok)) c.bad(x, `on ${e.event} ${[...got].map((t) => (t ? 'takes' : 'drops')).join(' or ')}`, e.line);
            }
    },
};
// a box is ticked when its value is the one that stands for ticked, or its list contains that one
function ticks(c) {
    const on = given('ticked'), off = given('unticked');
    const props = { trueValue: on, falseValue: off, checked: FALSE, indeterminate: FALSE };
    requireds(c, [['unticked', () => off]], [['ticked', () => on]], { ...props, multiple: FALSE });
    const holding = (...names) => (I, st) => I.mkArr(st, names.map((n) => given(n)));
    requireds(c, [['an empty list', holding()], ['a list without it', holding('another')]], [['a list with it', holding('another', 'ticked')]], { ...props, multiple: TRUE });
}
module.exports = {
    run() {
        const R = report();
        for (const [f, go] of Object.entries(CONTROLS)) {
            if (process.env.C21_ONLY && !f.includes(process.env.C21_ONLY)) continue;
            const c = new Control(R, f);
            R.count('controls');
            go(c);
            R.sample({ control: c.name, file: c.rel });
            R.stats(c.I.stats);
        }
        if (!process.env.C21_ONLY) {
            R.require('verdicts', 150);
            R.require('intakes', 20);
        }
        return R.result({
            rule: 'For every control, every distance of a value from its minimum and maximum, and every empty or filled value, required or not, the verdict of the control is rejection exactly when the value is beyond a limit or empty although required, both when the control starts with the value and when it changes to it; files brought by the user are taken exactly when their number is allowed.',
            explanation: 'Abstract interpretation of the set-up, mount hooks, value watchers and validation of each control. Texts, numbers, dates and choices are opaque; comparisons of their size with the limits are linear forms decided by the assumed distance.',
            assumptions: ['limits are numbers or texts standing for numbers', 'conversion between a number and its text loses nothing', 'dates are compared as the texts of one format', 'the single radio button, which asks the document for its group, is not covered'],
        });
    },
};
