'use strict';
// Which characters a pattern's matches can consist of, read off its source.
const ALL = Array.from({ length: 128 }, (_, i) => String.fromCharCode(i)).concat('Ā');
const DIGIT = [...'0123456789'];
const WORD = [...'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_'];
const SPACE = [' ', '\t', '\n', '\r', '\f', '\v'];
const minus = (xs) => ALL.filter((c) => !xs.includes(c));
const ESC = { d: DIGIT, D: minus(DIGIT), w: WORD, W: minus(WORD), s: SPACE, S: minus(SPACE) };
const CTRL = { n: '\n', t: '\t', r: '\r', f: '\f', v: '\v', 0: '\0' };

// {chars: Set, first: Set, empty, start, end}: characters of a match, characters it can begin with, whether it can be empty, whether it is tied to both ends
function analyse(text) {
    const m = text.match(/^\/(.*)\/([a-z]*)$/s);
    if (!m) return null;
    const src = m[1];
    let i = 0, ok = true;
    const res = { chars: new Set() };
    function cls() {
        const neg = src[i] === '^';
        if (neg) i++;
        const out = [];
        let last = null;
        while (i < src.length && src[i] !== ']') {
            let set;
            if (src[i] === '\\') {
                i++;
                set = ESC[src[i]] || [CTRL[src[i]] || src[i]];
                i++;
            } else if (src[i] === '-' && last && src[i + 1] !== ']' && i + 1 < src.length) {
                i++;
                const to = src[i] === '\\' ? src[++i] : src[i];
                i++;
                for (let c = last.charCodeAt(0); c <= to.charCodeAt(0); c++) out.push(String.fromCharCode(c));
                last = null;
                continue;
            } else set = [src[i++]];
            out.push(...set);
            last = set.length === 1 ? set[0] : null;
        }
        i++;
        return neg ? minus(out) : out;
    }
    function atom() {
        const c = src[i];
        if (c === '(') {
            i++;
            let look = false;
            if (src[i] === '?') {
                if (/^\?(=|!|<=|<!)/.test(src.slice(i))) look = true;
                i += src.slice(i).match(/^\?(<=|<!|<\w+>|[:=!])/)?.[0].length || ((ok = false), 1);
            }
            const keep = new Set(res.chars);
            const r = alt();
            if (src[i] === ')') i++;
            else ok = false;
            if (look) {
                res.chars = keep;
                return { first: new Set(), empty: true };
            }
            return r;
        }
        let set;
        if (c === '[') {
            i++;
            set = cls();
        } else if (c === '\\') {
            i++;
            const e = src[i++];
            if (e === 'b' || e === 'B') return { first: new Set(), empty: true };
            if (/[1-9]/.test(e)) return { first: new Set(res.chars), empty: true };
            set = ESC[e] || [CTRL[e] || e];
        } else if (c === '.') {
            i++;
            set = minus(['\n']);
        } else if (c === '^' || c === '$') {
            i++;
            return { first: new Set(), empty: true };
        } else {
            i++;
            set = [c];
        }
        if (m[2].includes('i')) set = set.flatMap((x) => [x, x.toLowerCase(), x.toUpperCase()]);
        for (const x of set) res.chars.add(x);
        return { first: new Set(set), empty: false };
    }
    function seq() {
        const first = new Set();
        let empty = true;
        while (i < src.length && src[i] !== '|' && src[i] !== ')') {
            const a = atom();
            let opt = false;
            const q = src.slice(i).match(/^(?:([*?])|\+|\{(\d+)(?:,\d*)?\})\??/);
            if (q) {
                i += q[0].length;
                opt = q[1] !== undefined || q[2] === '0';
            }
            if (empty) for (const x of a.first) first.add(x);
            if (!a.empty && !opt) empty = false;
        }
        return { first, empty };
    }
    function alt() {
        const r = seq();
        while (src[i] === '|') {
            i++;
            const b = seq();
            for (const x of b.first) r.first.add(x);
            r.empty = r.empty || b.empty;
        }
        return r;
    }
    const r = alt();
    if (!ok || i < src.length) return null;
    const top = !/(^|[^\\])\|/.test(src.replace(/\([^()]*\)|\[[^\]]*\]/g, ''));
    return { chars: res.chars, first: r.first, empty: r.empty, whole: top && src.startsWith('^') && src.endsWith('$') && !m[2].includes('m') };
}
module.exports = { analyse };
