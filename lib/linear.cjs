'use strict';
// Integer comparisons assumed on a path, as linear inequalities: expr <= bound.
const { keyOf } = require('./absint.cjs');

function lin(v) {
    if (v.k === 'lit' && typeof v.v === 'number') return { c: v.v, t: new Map() };
    if (v.k === 'sym' && v.arith && (v.arith.op === '+' || v.arith.op === '-')) {
        const a = lin(v.arith.a), b = lin(v.arith.b);
        return add(a, b, v.arith.op === '+' ? 1 : -1);
    }
    return { c: 0, t: new Map([[keyOf(v), 1]]) };
}
function add(a, b, k = 1) {
    const t = new Map(a.t);
    for (const [n, x] of b.t) {
        const y = (t.get(n) || 0) + k * x;
        if (y) t.set(n, y);
        else t.delete(n);
    }
    return { c: a.c + k * b.c, t };
}
const sameTerms = (a, b) => a.t.size === b.t.size && [...a.t].every(([n, x]) => b.t.get(n) === x);
// f: {c, t} meaning  sum(t) + c <= 0
function facts(I, st) {
    const out = [];
    for (const [key, val] of st.facts) {
        if (typeof val === 'boolean') {
            const p = I.preds.get(key);
            if (!p) continue;
            if (p.lt) {
                const d = add(lin(p.lt.a), lin(p.lt.b), -1); // a - b
                if (val) out.push({ c: d.c + 1, t: d.t });
                else out.push(add({ c: 0, t: new Map() }, d, -1));
            }
            const eq = p.cmp ? [p.cmp.a, p.cmp.b] : null;
            if (eq && val) {
                const d = add(lin(eq[0]), lin(eq[1]), -1);
                out.push(d, add({ c: 0, t: new Map() }, d, -1));
            }
        } else if (key[0] === '=' && val && val.k === 'lit' && typeof val.v === 'number') {
            out.push({ c: -val.v, t: new Map([[key.slice(1), 1]]) }, { c: val.v, t: new Map([[key.slice(1), -1]]) });
        }
    }
    return out;
}
// does some fact, or the sum of two, give  need <= 0 ?
function implied(need, fs) {
    if (!need.t.size) return need.c <= 0;
    for (const f of fs) if (sameTerms(f, need) && f.c >= need.c) return true;
    for (let i = 0; i < fs.length; i++)
        for (let j = i; j < fs.length; j++) {
            const f = add(fs[i], fs[j]);
            if (sameTerms(f, need) && f.c >= need.c) return true;
        }
    return false;
}
// contradictory comparisons: the path cannot be taken
function impossible(fs) {
    for (let i = 0; i < fs.length; i++)
        for (let j = i; j < fs.length; j++) {
            const f = i === j ? fs[i] : add(fs[i], fs[j]);
            if (!f.t.size && f.c > 0) return true;
        }
    return false;
}
const atLeast = (v, n) => add({ c: n, t: new Map() }, lin(v), -1); // n - v <= 0
const below = (v, len) => {
    const d = add(lin(v), lin(len), -1);
    return { c: d.c + 1, t: d.t };
};
module.exports = { lin, add, facts, implied, impossible, atLeast, below };
