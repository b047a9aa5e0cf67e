'use strict';
// C16: theme state, root class and remembered theme; option ranges.
const A = require('../lib/absint.cjs');
const { Sym, U, Lit, NULL, keyOf } = A;
const { Unit, Id } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');

const THEMES = ['light', 'dark'];
const show = (v) => (v ? keyOf(v) : 'nothing');

// the page: root class list, remembered theme, system preference
class Page {
    constructor(region) {
        this.saved = null;
        this.systemDark = false;
        this.u = new Unit({
            keepEvent: (e) => e.t === 'call' && ['toggle', 'add', 'remove', 'setItem', 'removeItem', 'clear'].includes(e.name),
            decide: (v) => (region && region.decide ? region.decide(v) : undefined),
            onOpaque: ({ name, args, fk }, st, I) => {
                if (name === 'getItem' && /localStorage/.test(fk)) return [{ s: st, v: keyOf(args[0]) === keyOf(this.key) ? (this.saved ? Lit(this.saved) : NULL) : NULL }];
                if (name === 'matchMedia' || /matchMedia$/.test(fk)) {
                    const q = args[0] && args[0].k === 'lit' ? String(args[0].v) : '';
                    const m = /prefers-color-scheme\s*:\s*dark/.test(q) ? Lit(this.systemDark) : /prefers-color-scheme\s*:\s*light/.test(q) ? Lit(!this.systemDark) : Sym('media');
                    return [{ s: st, v: I.mkObj(st, [['matches', m]], { open: true }) }];
                }
                return null;
            },
        });
        this.I = this.u.I;
        this.key = this.u.val('declaration', 'THEME_KEY');
        this.store = this.u.call(this.u.val('stores', 'useOptionsStore'), [], this.u.state())[0].v;
    }
    // a page whose store and root class show the given theme
    at(theme) {
        const s = this.u.state();
        this.u.asBuilt(s, this.store);
        return this.u.send(s, this.store, 'setTheme', [Lit(theme)]);
    }
    get(s, o, name) {
        const r = this.I.getMember(s, o, name, null, {});
        return this.I.bind(r, (s2, v) => (['ref', 'computed', 'propref'].includes(v.k) ? this.I.readRef(s2, v, null) : [{ s: s2, v }]));
    }
    // root class after the events of a path, starting from the given theme
    dark(s, from, was) {
        let d = was === 'dark';
        for (const e of s.events().slice(from)) {
            if (!e.args || !e.args.length || !/classList/.test(e.key) || !/documentElement|html/.test(e.key)) continue;
            const names = e.args.map((a) => (a.k === 'lit' ? a.v : null));
            if (e.name === 'add' && names.includes('vs-dark')) d = true;
            if (e.name === 'remove' && names.includes('vs-dark')) d = false;
            if (e.name === 'toggle' && names[0] === 'vs-dark') d = e.args[1] === undefined ? !d : e.args[1].k === 'lit' ? !!e.args[1].v : null;
        }
        return d;
    }
    remembered(s, from) {
        let r;
        for (const e of s.events().slice(from)) {
            if (!/localStorage/.test(e.key)) continue;
            if (e.name === 'setItem' && keyOf(e.args[0]) === keyOf(this.key)) r = e.args[1].k === 'lit' ? e.args[1].v : '?';
            if (e.name === 'setItem' && keyOf(e.args[0]) !== keyOf(this.key)) r = `(under ${keyOf(e.args[0])})`;
            if (e.name === 'removeItem' || e.name === 'clear') r = null;
        }
        return r;
    }
}

function theme(R) {
    const P = new Page();
    const { u, I } = P;
    const cls = u.val('framework', 'Vlossom');
    const file = cls.mod.rel;
    const bad = (key, message) => R.violation({ file, line: 0, key, message: `${message} (${file})` });
    const judge = (label, o, vs, from, was, want, remember) => {
        R.count('paths');
        if (o.c === 'throw') return bad(`${label}|throw`, `${label} throws`);
        for (const [who, obj] of [['the reported theme', vs], ['the theme components read', P.store]])
            for (const g of P.get(o.s.clone(), obj, 'theme')) if (g.v.k !== 'lit' || g.v.v !== want) bad(`${label}|${who}`, `${label}: ${who} is ${show(g.v)} instead of ${want}`);
        if (P.dark(o.s, from, was) !== (want === 'dark')) bad(`${label}|class`, `${label}: the root class is ${P.dark(o.s, from, was) ? 'dark' : 'not dark'} while the theme is ${want}`);
        if (remember !== undefined && P.remembered(o.s, from) !== remember) bad(`${label}|remember`, `${label}: remembers ${P.remembered(o.s, from)} instead of ${remember}`);
    };
    const make = (s, opts) => u.make(cls, [I.mkObj(s, opts)], s);
    // start-up
    for (const was of THEMES)
        for (const saved of [null, ...THEMES])
            for (const dark of [false, true])
                for (const option of [null, ...THEMES]) {
                    P.saved = saved;
                    P.systemDark = dark;
                    const want = saved || (dark ? 'dark' : option || 'light');
                    const label = `start-up with ${saved || 'no'} remembered theme, ${dark ? 'dark' : 'light'} system and ${option || 'no'} option${was === 'dark' ? ', after an earlier start-up left dark' : ''}`;
                    R.count('histories');
                    for (const b of P.at(was)) {
                        const from = b.s.ev ? b.s.ev.n : 0;
                        for (const o of make(b.s, option ? [['theme', Lit(option)]] : [])) judge(label, o, o.v, from, was, want);
                    }
                }
    // setting and toggling
    P.saved = null;
    P.systemDark = false;
    for (const was of THEMES) {
        const start = () => I.bind(P.at(was), (s) => I.bind(make(s, []), (s2, vs) => I.bind(I.setMember(s2, vs, Lit('theme'), Lit(was), null, {}), (s3) => [{ s: s3, v: vs }])));
        for (const to of THEMES)
            for (const b of start()) {
                R.count('histories');
                const from = b.s.ev ? b.s.ev.n : 0;
                for (const o of I.setMember(b.s.clone(), b.v, Lit('theme'), Lit(to), null, {})) judge(`setting ${to} while ${was}`, o, b.v, from, was, to);
            }
        for (const b of start()) {
            R.count('histories');
            const to = was === 'dark' ? 'light' : 'dark';
            const from = b.s.ev ? b.s.ev.n : 0;
            for (const o of u.send(b.s.clone(), b.v, 'toggleTheme', [])) {
                judge(`toggling while ${was}`, o, b.v, from, was, to, to);
                // and back
                const again = o.s.ev ? o.s.ev.n : 0;
                for (const o2 of u.send(o.s.clone(), b.v, 'toggleTheme', [])) judge(`toggling twice while ${was}`, o2, b.v, again, to, was, was);
            }
        }
    }
    R.sample({ class: 'Vlossom', file });
    R.stats(I.stats);
}

// options set are options read; bounded numbers are kept in their range
function options(R) {
    const RANGES = { radiusRatio: [0, 1] };
    for (const name of ['colorScheme', 'styleSet', 'radiusRatio'])
        for (const region of RANGES[name] ? ['below', 'inside', 'above'] : ['any']) {
            const x = name in RANGES ? Sym('given', { nonnull: true, number: true }) : Id('given');
            const [lo, hi] = RANGES[name] || [];
            // comparisons of the given number with the bounds, decided by its region
            const cmp = (a, b) => {
                const pos = (v) => (v.key === 'given' ? { below: -1, inside: 0.5, above: 2 }[region] : v.k === 'lit' && typeof v.v === 'number' ? v.v : null);
                const p = pos(a), q = pos(b);
                if (p === null || q === null || (a.k === 'lit' && ![lo, hi].includes(a.v)) || (b.k === 'lit' && ![lo, hi].includes(b.v))) return undefined;
                return p - q;
            };
            const P = new Page({
                decide: (v) => {
                    if (v.lt) {
                        const c = cmp(v.lt.a, v.lt.b);
                        return c === undefined ? undefined : c < 0;
                    }
                    return undefined;
                },
            });
            const { u, I } = P;
            const cls = u.val('framework', 'Vlossom');
            const file = cls.mod.rel;
            // bounded number a value stands for
            const resolve = (v) => {
                if (v.call && /\bmin$|\bmax$/.test(v.call.fk) && v.call.args.length) {
                    const as = v.call.args.map(resolve);
                    return as.reduce((a, b) => {
                        const c = cmp(a, b);
                        if (c === undefined) return { k: 'unknown', key: '?' };
                        return (/max$/.test(v.call.fk) ? c >= 0 : c <= 0) ? a : b;
                    });
                }
                return v;
            };
            const want = region === 'below' ? Lit(lo) : region === 'above' ? Lit(hi) : x;
            for (const how of ['at start-up', 'later']) {
                R.count('option_histories');
                const s0 = u.state();
                u.asBuilt(s0, P.store);
                const outs = I.bind(u.make(cls, [I.mkObj(s0, how === 'later' ? [] : [[name, x]])], s0), (s, vs) => (how === 'later' ? I.bind(I.setMember(s, vs, Lit(name), x, null, {}), (s2) => [{ s: s2, v: vs }]) : [{ s, v: vs }]));
                for (const o of outs)
                    for (const [who, obj] of [['reported', o.v], ['read by components', P.store]])
                        for (const g of P.get(o.s.clone(), obj, name)) {
                            R.count('paths');
                            if (keyOf(resolve(g.v)) !== keyOf(want)) R.violation({ file, line: 0, key: `${name}|${region}|${who}`, message: `${name} given ${region === 'any' ? '' : region + ' its range '}${how} is ${who} as ${show(g.v)} (${file})` });
                        }
            }
            R.stats(I.stats);
        }
}

exports.run = () => {
    const R = report();
    theme(R);
    options(R);
    R.require('histories', 40);
    R.require('option_histories', 8);
    return R.result({
        rule: 'On every path of start-up (remembered theme x system preference x option x theme left by an earlier start-up), of setting and of toggling, the reported theme, the theme in the store and the root class derived from the class-list effects must all be the expected theme; toggling must store it under the key start-up reads. Options set must be the options read, numbers clamped to their range.',
        explanation: 'Abstract interpretation of the framework class and options store; document, storage and media query are effect models, the root class is the fold of the class-list effects of a path, the radius ratio is an opaque number known only by its region (below, inside, above the range).',
        assumptions: ['a remembered theme is light or dark'],
    });
};
