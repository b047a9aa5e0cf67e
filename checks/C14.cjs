'use strict';
// C14: shown rows = items passing the search, in the chosen order, cut to the page; selection and expansion respect
// their predicates; every change is reflected in rows, counts and reported lists.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, Lit, U, TRUE, keyOf } = A;
const { Sim } = require('../lib/effects.cjs');
const { Id, identities, random } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');

const TABLE = 'components/vs-table/VsTable.vue';

// ---- the view of a list of opaque items ------------------------------------------------------------------
function view(R) {
    const env = { kind: 'number', rank: {}, match: new Set(), selectable: new Set(), expandable: new Set() };
    const itemOf = (k) => {
        const m = /\b(item[a-z]\d)\b/.exec(k);
        return m ? m[1] : null;
    };
    // position of the value of an item in the order of values
    const partial = (v) => v.call && (/^(get(?!Time$)\w+|charAt|charCodeAt|codePointAt|slice|substring|substr|at)$/.test(v.call.name || '') || (v.call.recv && partial(v.call.recv)) || (v.call.args || []).some(partial));
    const rank = (v) => {
        // a part of a value does not tell its place among the others
        if (partial(v)) return null;
        const m = /\b(item[a-z]\d)\b(?:\W+([a-z])\b)?/.exec(keyOf(v));
        const by = m && env.rank[m[2] || 'k'];
        return by && by[m[1]] !== undefined ? by[m[1]] : null;
    };
    const num = (v) => {
        if (v.k === 'lit') return typeof v.v === 'number' ? v.v : typeof v.v === 'boolean' ? Number(v.v) : null;
        if (v.arith) {
            const a = num(v.arith.a), b = num(v.arith.b);
            if (a === null || b === null) return null;
            return v.arith.op === '-' ? a - b : v.arith.op === '+' ? a + b : v.arith.op === '*' ? a * b : null;
        }
        if (v.neg) return num(v.neg) === null ? null : -num(v.neg);
        if (v.call && v.call.name === 'localeCompare' && v.call.recv && v.call.args[0]) {
            // numbers and dates are not ordered by how they are written
            if (env.kind === 'number' || env.kind === 'date') return null;
            const a = rank(v.call.recv), b = rank(v.call.args[0]);
            return a === null || b === null ? null : Math.sign(a - b);
        }
        return rank(v);
    };
    const asks = (x) => x.call && x.call.name === 'match';
    const decide = (v) => {
        const id = identities(v);
        if (id !== undefined) return id;
        if (v.lt) {
            const a = num(v.lt.a), b = num(v.lt.b);
            if (a !== null && b !== null) return a < b;
        }
        if (v.cmp) {
            if (v.cmp.a.typeofOf && v.cmp.b.typeofOf && itemOf(v.cmp.a.typeofOf) && itemOf(v.cmp.b.typeofOf)) return true;
            const a = num(v.cmp.a), b = num(v.cmp.b);
            if (a !== null && b !== null) return a === b;
        }
        if (v.eq && v.eq.typeofKey && itemOf(v.eq.typeofKey)) return v.eq.lit === (env.kind === 'date' ? 'object' : env.kind);
        if (v.eq && v.eq.of && !asks(v.eq.of) && itemOf(v.eq.key)) {
            const a = num(v.eq.of);
            return typeof v.eq.lit === 'number' && a !== null ? a === v.eq.lit : false;
        }
        if (v.nullOf && itemOf(v.nullOf) && !/predicate|match/.test(v.nullOf)) return false;
        if (v.instOf && itemOf(v.key)) return env.kind === 'date' && /global:Date\)?$/.test(v.key);
        const ask = (x) => {
            if (!x.call) return undefined;
            if (x.call.name === 'match' || /\.match$/.test(x.call.fk || '')) return env.match.has(itemOf(keyOf(x.call.args[0] || U)));
            return undefined;
        };
        const r = ask(v);
        if (r !== undefined) return r;
        return undefined;
    };
    const drawn = (c, st) => {
        const v = random(c);
        return v ? [{ s: st, v }] : null;
    };
    const sim = new Sim({ decide, unroll: 8, onOpaque: drawn, keepEvent: (e) => e.t === 'emit' && /^update:/.test(e.name) && e.inst.def.name === 'VsTable' });
    const { I } = sim;
    const DEFAULT = { pagination: Lit(false), serverMode: Lit(false), page: U, pageSize: U, search: TRUE, loading: Lit(false) };
    const P = { items: [], columns: null, selected: [], more: {} };
    // what the application gives stays the same object until it gives another one
    const made = new Map();
    const given = (st, of, make) => {
        if (!made.has(of)) {
            const v = make();
            const cells = [[v.id, I.getCell(st, v.id)]];
            for (const e of I.getCell(st, v.id).elems) if (e.id !== undefined) cells.push([e.id, I.getCell(st, e.id)]);
            made.set(of, { v, cells });
        }
        const m = made.get(of);
        if (!I.getCell(st, m.v.id)) for (const [id, c] of m.cells) st.live.set(id, c);
        return m.v;
    };
    const file = L.path.join(L.UI, TABLE);
    const bad = (what, message, node) => R.violation({ file: node ? I.loc(node).split(':')[0] : L.rel(file), line: node ? Number(I.loc(node).split(':')[1]) : 0, key: `VsTable|${what}`, message });
    const list = (s, v) => (v.k === 'arr' ? (I.getCell(s, v.id) || {}).elems : null);
    const eq = (a, b) => Array.isArray(a) && a.length === b.length && a.every((x, i) => x === b[i]);
    const names = (s, v) => {
        const es = list(s, I.norm(s, v));
        return es && es.every((e) => !e.spreadOf) ? es.map((e) => itemOf(keyOf(I.norm(s, e)))) : null;
    };
    // an application's predicate: opaque, but asked about an item it must be told that item's own position
    const predicate = (tag) => ({
        k: 'native',
        name: `${tag} predicate`,
        key: `${tag} predicate`,
        impl: (I2, st, args, node) => {
            const it = itemOf(keyOf(I.norm(st, args[0] || U)));
            if (!it || !P.items.includes(it)) return [{ s: st, v: Sym(`${tag}(${args.map(keyOf).join()})`) }];
            R.count('questions', 1);
            const at = I.norm(st, args[1] || U);
            const own = P.items.indexOf(it);
            if (!(at.k === 'lit' && at.v === own)) bad(`position ${tag}`, `whether an item is ${tag} is asked with a position that is not the item's own in the list`, node);
            else if (!eq(names(st, args[2] || U), P.items)) bad(`items ${tag}`, `whether an item is ${tag} is asked without the list of items it belongs to`, node);
            return [{ s: st, v: Lit(env[tag].has(it)) }];
        },
    });
    const preds = { selectable: predicate('selectable'), expandable: predicate('expandable') };
    // the parts of a row see one of the rows
    let row = null;
    const cells = (inst, name) => (row && inst.def.name === 'VsTableBodyRow' ? (name === 'cells' ? row.cells : name === 'rowIdx' ? Lit(row.shown) : null) : null);
    const scn = {
        props: (inst, name, st) => {
            if (inst.def.name !== 'VsTable') return cells(inst, name);
            if (name === 'items') return given(st, P.items, () => I.mkArr(st, P.items.map(Id)));
            if (name === 'columns') return given(st, P.columns, () => I.mkArr(st, P.columns.map((c) => typeof c === 'string' ? Lit(c) : I.mkObj(st, Object.entries(c).map(([k, v]) => [k, Lit(v)])))));
            if (preds[name]) return preds[name];
            const x = P.more[name];
            if (x !== undefined) return x;
            if (name === 'selectedItems') return given(st, P.selected, () => I.mkArr(st, P.selected.map(Id)));
            return DEFAULT[name] || null;
        },
    };
    const old = ['itema1', 'itema2', 'itema3'];
    const none = [];
    P.selected = none;
    const fresh = ['itemb1', 'itemb2', 'itemb3'];
    const col = (key, more) => ({ key, label: key, sortable: true, ...more });
    P.items = old;
    const columns = [col('k'), col('m', { sortBy: 'n' }), col('o')];
    P.columns = columns;
    // different orders by different values; one with equal values
    env.rank = { k: { itema1: 2, itema2: 3, itema3: 1, itemb1: 1, itemb2: 3, itemb3: 2 }, m: { itema1: 1, itema2: 2, itema3: 3 }, n: { itema1: 3, itema2: 1, itema3: 2 }, o: { itema1: 1, itema2: 0, itema3: 1 } };
    env.match = new Set([...old, ...fresh]);

    sim.under(scn, () => {
        sim.load(file);
        const { top } = sim;
        const base = sim.b.setupState;
        const tab = [...top.provided.values()].find((v) => v.k === 'obj' && I.getCell(base, v.id).props.has('bodyCells'));
        if (!tab) throw new Error('the table provides no view to its parts');
        const get = (s, name) => {
            const v = I.getMember(s, tab, name, null, {})[0].v;
            return ['ref', 'computed', 'propref'].includes(v.k) ? I.getMember(s, v, 'value', null, {}) : [{ s, v }];
        };
        const call = (s, name, args) => I.invoke(I.getMember(s, tab, name, null, {})[0].v, U, args, s, null);
        const rowItem = (s, row) => {
            const cells = list(s, row);
            const c = cells && cells[0];
            return c ? itemOf(keyOf(I.norm(s, I.getMember(s, c, 'item', null, {})[0].v))) : null;
        };
        // the search box, once it is there
        const withSearch = (s) => {
            s.live.each((id, c) => {
                if (c.t === 'ref' && c.tplRef) s.live.set(id, { ...c, value: Sym(`element ${c.tplRef}`, { nonnull: true }) });
            });
            return s;
        };
        // a step of the user or the application, followed by the watchers it triggers; with what was reported meanwhile
        const step = (s, f) => {
            const before = s.clone();
            const n = s.events().length;
            return sim.world.flush(before, sim.finish(f(s)), [top]).map((o) => {
                const got = {};
                for (const e of o.s.events().slice(n)) {
                    const v = e.args[1] !== undefined ? e.args[1] : e.args[0];
                    got[e.name.slice(7)] = v.k === 'arr' ? names(o.s, v) : I.norm(o.s, v);
                }
                return { s: o.s, got };
            });
        };
        // watchers over the given props, then what they trigger
        const propStep = (s, props) =>
            step(s, (s1) => {
                let outs = [{ s: s1, v: U }];
                for (const x of sim.watchers()) {
                    const deps = sim.world.deps(x.w, s1.clone());
                    if (x.inst !== top || ![...x.deps, ...deps].some((d) => props.some((p) => d === `prop:${top.uid}.${p}`))) continue;
                    outs = I.bind(outs, (s2) => (x.w.source ? sim.world.sourceVals(x.w, s2).flatMap((o) => I.invoke(x.w.cb, U, [o.arr ? I.mkArr(o.s, o.v) : o.v, Sym(`old#${x.w.id}`)], o.s, x.w.node)) : I.invoke(x.w.cb, U, [], s2, x.w.node)));
                }
                return outs;
            });
        const expected = (sort, by = 'k') => {
            let rows = P.items.filter((i) => env.match.has(i));
            if (sort) rows = rows.slice().sort((a, b) => sort * (env.rank[by][a] - env.rank[by][b]));
            const total = rows;
            const m = P.more;
            const paged = m.pagination && m.pagination.v && !(m.serverMode && m.serverMode.v);
            const size = m.pageSize ? m.pageSize.v : 50;
            const page = m.page ? m.page.v : 0;
            if (paged && size !== Infinity) rows = rows.slice(page * size, page * size + size);
            return { total, rows, size, page, paged };
        };
        const show = (x) => (x === undefined || x === null ? 'nothing' : Array.isArray(x) ? x.join() : keyOf(x).slice(0, 60));
        const look = (s, sort, what, by) => {
            const want = expected(sort, by);
            R.count('views', 1);
            for (const o of get(s.clone(), 'bodyCells')) {
                const rows = list(o.s, I.norm(o.s, o.v));
                const got = rows && rows.map((r) => rowItem(o.s, r));
                R.count('rows_compared', want.rows.length);
                if (!eq(got, want.rows)) bad(`rows ${what}`, `${what}: the table shows [${got ? got.join() : keyOf(o.v).slice(0, 80)}] instead of [${want.rows.join()}]`);
            }
            const n = (name) => get(s.clone(), name).map((o) => I.norm(o.s, o.v));
            if (!(P.more.serverMode && P.more.serverMode.v)) {
                for (const v of n('totalItems')) if (!(v.k === 'lit' && v.v === want.total.length)) bad(`total ${what}`, `${what}: the table counts ${keyOf(v)} items instead of ${want.total.length}`);
                if (P.more.pagination && P.more.pagination.v) {
                    const pages = want.size === Infinity ? 1 : Math.ceil(want.total.length / want.size);
                    for (const v of n('totalPages')) if (!(v.k === 'lit' && v.v === pages)) bad(`pages ${what}`, `${what}: the table has ${keyOf(v)} pages instead of ${pages}`);
                    const from = want.size === Infinity ? 0 : want.page * want.size;
                    for (const v of n('pageStartIndex')) if (!(v.k === 'lit' && v.v === from)) bad(`start ${what}`, `${what}: the page starts at ${keyOf(v)} instead of ${from}`);
                    const to = Math.min(want.total.length, want.size === Infinity ? want.total.length : from + want.size);
                    for (const v of n('pageEndIndex')) if (!(v.k === 'lit' && v.v === to)) bad(`end ${what}`, `${what}: the page ends at ${keyOf(v)} instead of ${to}`);
                }
            }
            return want;
        };
        const lists = (got, want, what) => {
            R.count('reports', 1);
            if (!eq(got.pagedItems, want.rows)) bad(`reports rows ${what}`, `${what}: the table reports [${show(got.pagedItems)}] as its shown items instead of [${want.rows.join()}]`);
            if (!eq(got.totalItems, want.total)) bad(`reports total ${what}`, `${what}: the table reports [${show(got.totalItems)}] as all its items instead of [${want.total.join()}]`);
        };

        // first render
        const started = step(base.clone(), (s) => sim.hooks('onBeforeMount').filter((h) => h.inst === top).reduce((os, h) => I.bind(os, (s1) => I.invoke(h.fn, U, [], s1, h.node)), [{ s, v: U }]));
        const ready = [];
        for (const o of started) {
            lists(o.got, look(o.s, 0, 'at first'), 'at first');
            ready.push(withSearch(o.s.clone()));
        }
        const MATCH = { everything: old, 'some of the items': [old[0], old[2]], nothing: [] };
        const SORT = { unsorted: 0, ascending: 1, descending: -1 };
        const PAGE = {
            'not paged': {},
            'first page of two': { pagination: TRUE, page: Lit(0), pageSize: Lit(2) },
            'second page of two': { pagination: TRUE, page: Lit(1), pageSize: Lit(2) },
            'all on one page': { pagination: TRUE, page: Lit(0), pageSize: Lit(Infinity) },
            'large page': { pagination: TRUE, page: Lit(0), pageSize: Lit(50) },
            'paged by the server': { pagination: TRUE, page: Lit(1), pageSize: Lit(2), serverMode: TRUE },
        };
        // the order is chosen through the header
        const clicks = (ss, key, n) => {
            for (let i = 0; i < n; i++) ss = ss.flatMap((s) => step(s, (s1) => call(s1, 'updateSortType', [Lit(key)])).map((o) => o.s));
            return ss;
        };
        for (const kind of ['number', 'string', 'date', 'object'])
            for (const [mn, matched] of Object.entries(MATCH))
                for (const [sn, sort] of Object.entries(SORT)) {
                    env.kind = kind;
                    env.match = new Set(matched);
                    P.more = {};
                    const ss = clicks(ready.map((s) => s.clone()), 'k', sort === 0 ? 0 : sort === 1 ? 1 : 2);
                    for (const [pn, more] of Object.entries(PAGE)) {
                        P.more = more;
                        for (const s of ss) look(s, sort, `${mn} found, ${sn}${kind === 'number' ? '' : ` ${kind}s`}, ${pn}`);
                    }
                }
        env.kind = 'number';
        env.match = new Set([...old, ...fresh]);
        P.more = {};
        // by the value a column names for sorting; equal values keep the given order
        for (const [key, by] of [['m', 'n'], ['o', 'o']])
            for (const [sn, sort] of Object.entries(SORT)) for (const s of clicks(ready.map((x) => x.clone()), key, sort === 0 ? 0 : sort === 1 ? 1 : 2)) look(s, sort, `${sn} by ${key === 'm' ? 'what the column names' : 'equal values'}`, by);
        // the columns are given by their keys only
        P.columns = ['k', 'm'];
        for (const s0 of ready) for (const o of propStep(s0.clone(), ['columns'])) look(o.s, 0, 'after columns given by key');
        P.columns = columns;
        // the server pages: its count of items is shown
        for (const count of [7, 0]) {
            const kinds = (s) => I.mkObj(s, [['totalItemCount', Lit(count)]]);
            for (const s0 of ready) {
                const s1 = s0.clone();
                P.more = { pagination: kinds(s1), serverMode: TRUE, page: Lit(1), pageSize: Lit(3) };
                for (const [n, want] of [['totalItems', count], ['totalPages', count ? 3 : -1]])
                    for (const o of get(s1.clone(), n)) {
                        const v = I.norm(o.s, o.v);
                        if (!(v.k === 'lit' && v.v === want)) bad(`server ${n}`, `with ${count} items on the server the table says ${keyOf(v)} ${n === 'totalItems' ? 'items' : 'pages'} instead of ${want}`);
                    }
                look(s1, 0, 'paged by the server with a count');
            }
        }
        P.more = {};
        // a third choice goes back to the given order
        for (const s of clicks(ready.map((x) => x.clone()), 'k', 3)) look(s, 0, 'order chosen three times');
        // choosing an order is reported
        for (const s0 of ready)
            for (const o of step(s0.clone(), (s1) => call(s1, 'updateSortType', [Lit('k')]))) lists(o.got, look(o.s, 1, 'after choosing an order'), 'after choosing an order');
        // ... also while paged
        P.more = PAGE['first page of two'];
        for (const s0 of ready)
            for (const o of step(s0.clone(), (s1) => call(s1, 'updateSortType', [Lit('k')]))) lists(o.got, look(o.s, 1, 'after choosing an order while paged'), 'after choosing an order while paged');
        // the user turns the page, the application decides
        for (const s0 of ready)
            for (const o of step(s0.clone(), (s1) => I.setMember(s1, I.getMember(s1, tab, 'page', null, {})[0].v, Lit('value'), Lit(1), null))) {
                look(o.s, 0, 'after turning a page the application keeps');
                if (!(o.got.page && o.got.page.v === 1)) bad('reports page turned', 'turning the page is not reported');
                P.more = PAGE['second page of two'];
                const want = expected(0);
                P.more = { pagination: TRUE, pageSize: Lit(2) };
                for (const v of get(o.s.clone(), 'bodyCells')) {
                    const got = (list(v.s, I.norm(v.s, v.v)) || []).map((r) => rowItem(v.s, r));
                    if (!eq(got, want.rows)) bad('page turned', `after turning the page the table shows [${got.join()}] instead of [${want.rows.join()}]`);
                }
                P.more = PAGE['first page of two'];
            }
        P.more = {};
        // new items
        P.items = fresh;
        for (const s0 of ready)
            for (const o of propStep(s0.clone(), ['items'])) lists(o.got, look(o.s, 0, 'after new items'), 'after new items');
        P.items = [];
        for (const s0 of ready) for (const o of propStep(s0.clone(), ['items'])) look(o.s, 0, 'after the items are gone');
        P.items = old;
        // another page
        P.more = PAGE['second page of two'];
        for (const s0 of ready) {
            P.more = PAGE['first page of two'];
            const s1 = s0.clone();
            P.more = PAGE['second page of two'];
            for (const o of propStep(s1, ['page'])) {
                const want = look(o.s, 0, 'after another page');
                if (!eq(o.got.pagedItems, want.rows)) bad('reports page', `after another page the table reports [${show(o.got.pagedItems)}] as its shown items instead of [${want.rows.join()}]`);
            }
        }
        // the user picks a page size: first page of that size
        P.more = { pagination: TRUE };
        for (const s0 of ready) {
            const size = I.getMember(s0, tab, 'pageSize', null, {})[0].v;
            const page = I.getMember(s0, tab, 'page', null, {})[0].v;
            const outs = step(s0.clone(), (s1) => I.bind(I.setMember(s1, page, Lit('value'), Lit(1), null), (s2) => I.setMember(s2, size, Lit('value'), Lit(2), null)));
            for (const o of outs) {
                P.more = { pagination: TRUE, pageSize: Lit(2), page: Lit(0) };
                look(o.s, 0, 'after picking a page size');
                P.more = { pagination: TRUE };
                const g = o.got;
                if (!(g.pageSize && g.pageSize.v === 2)) bad('reports size', 'a picked page size is not reported');
                if (!(g.page && g.page.v === 0)) bad('reports first page', 'after picking a page size the table does not report going back to the first page');
            }
        }
        // the application gives another page size
        P.more = { pagination: TRUE, pageSize: Lit(2), page: Lit(0) };
        for (const s0 of ready)
            for (const o of propStep(s0.clone(), ['pageSize', 'page'])) {
                look(o.s, 0, 'after a page size of two');
                P.more = { pagination: TRUE, pageSize: Lit(1), page: Lit(1) };
                for (const p of propStep(o.s.clone(), ['pageSize', 'page'])) look(p.s, 0, 'after a page size of one');
                P.more = { pagination: TRUE, pageSize: Lit(2), page: Lit(0) };
            }
        P.more = {};

        // selecting everything
        for (const may of [[old[0], old[2]], old, []]) {
            env.selectable = new Set(may);
            for (const s0 of ready) {
                const first = step(s0.clone(), (s1) => call(s1, 'toggleSelectAll', []));
                for (const o of first) {
                    R.count('selections', 1);
                    const what = `${may.length} of 3 selectable`;
                    for (const v of get(o.s.clone(), 'selectedItems')) {
                        const got = names(v.s, v.v);
                        if (!eq(got, may)) bad(`select all ${may.length}`, `${what}: selecting all selects [${got ? got.join() : keyOf(v.v).slice(0, 80)}] instead of [${may.join()}]`);
                    }
                    if (may.length && !eq(o.got.selectedItems, may)) bad(`report select all ${may.length}`, `${what}: selecting all reports [${show(o.got.selectedItems)}]`);
                    const flag = (n, want) => {
                        for (const v of get(o.s.clone(), n)) {
                            const x = I.norm(v.s, v.v);
                            if (!(x.k === 'lit' && x.v === want)) bad(`${n} ${may.length}`, `${what}: after selecting all, ${n === 'selectedAll' ? 'everything' : 'a part'} ${want ? 'does not count' : 'counts'} as selected`);
                        }
                    };
                    flag('selectedAll', may.length > 0);
                    flag('selectedPartial', false);
                    flag('anySelectable', may.length > 0);
                    if (!may.length) continue;
                    for (const p of step(o.s.clone(), (s1) => call(s1, 'toggleSelectAll', [])))
                        for (const v of get(p.s.clone(), 'selectedItems')) {
                            const got = names(v.s, v.v);
                            if (!eq(got, [])) bad('unselect all', `selecting all twice leaves [${got ? got.join() : '?'}] selected`);
                        }
                }
            }
        }
        // part of what may be selected is selected: choosing all selects the rest too
        env.selectable = new Set([old[0], old[2]]);
        P.selected = [old[0]];
        for (const s0 of ready)
            for (const o of propStep(s0.clone(), ['selectedItems'])) {
                for (const [n, want] of [['selectedAll', false], ['selectedPartial', true]])
                    for (const v of get(o.s.clone(), n)) {
                        const x = I.norm(v.s, v.v);
                        if (!(x.k === 'lit' && x.v === want)) bad(`${n} part`, `with one of two selectable items selected, ${n === 'selectedAll' ? 'everything counts' : 'a part does not count'} as selected`);
                    }
                for (const p of step(o.s.clone(), (s1) => call(s1, 'toggleSelectAll', [])))
                    for (const v of get(p.s.clone(), 'selectedItems')) if (!eq(names(v.s, v.v), [old[0], old[2]])) bad('select the rest', 'choosing all with a part selected does not select everything selectable');
            }
        P.selected = none;
        // the application's selection is taken over
        for (const s0 of ready) {
            P.selected = [old[1]];
            for (const o of propStep(s0.clone(), ['selectedItems'])) {
                R.count('selections', 1);
                for (const v of get(o.s.clone(), 'selectedItems')) {
                    const got = names(v.s, v.v);
                    if (!eq(got, P.selected)) bad('selection given', `the table selects [${got ? got.join() : keyOf(v.v).slice(0, 60)}] instead of what the application gives`);
                }
            }
            P.selected = none;
        }
        const inRow = (inst) => inst && (inst.def.name === 'VsTableBodyRow' || inRow(inst.parent));
        // the parts of a shown row: whatever they ask or do concerns that row's item
        env.selectable = new Set([old[0]]);
        env.expandable = new Set([old[0]]);
        for (const s0 of clicks(ready.map((x) => x.clone()), 'k', 1))
            for (const o of get(s0, 'bodyCells')) {
                (list(o.s, I.norm(o.s, o.v)) || []).forEach((cellsOf, shown) => {
                    row = { cells: cellsOf, shown };
                    for (const e of sim.b.entries.filter((x) => inRow(x.inst))) {
                        for (const r of sim.runEntry(e, o.s.clone())) {
                            R.count('row_paths', 1);
                            for (const v of get(r.s.clone(), 'selectedItems')) {
                                const got = names(v.s, v.v);
                                if (got && got.some((x) => !env.selectable.has(x))) bad('row selection', 'a row that may not be selected is selected through its own part', e.el && e.el.node);
                            }
                        }
                    }
                });
                row = null;
            }
        // expanding a row
        for (const may of [[old[0]], []]) {
            env.expandable = new Set(may);
            for (const s0 of ready)
                for (const o of get(s0.clone(), 'bodyCells')) {
                    const rows = list(o.s, I.norm(o.s, o.v)) || [];
                    rows.forEach((row, i) => {
                        const ok = may.includes(rowItem(o.s, row));
                        for (const t of call(o.s.clone(), 'toggleExpand', [row])) {
                            R.count('expansions', 1);
                            rows.forEach((other, j) => {
                                for (const e of call(t.s.clone(), 'isExpanded', [other])) {
                                    const v = I.norm(e.s, e.v);
                                    const want = ok && i === j;
                                    if (!(v.k === 'lit' && v.v === want)) bad(`expand ${ok} ${i === j}`, want ? 'a row that may be expanded does not expand' : `${ok ? 'another' : 'a'} row ${ok ? 'expands too' : 'that may not be expanded expands'}`);
                                }
                            });
                            if (ok)
                                for (const u of call(t.s.clone(), 'toggleExpand', [row]))
                                    for (const e of call(u.s, 'isExpanded', [row])) {
                                        const v = I.norm(e.s, e.v);
                                        if (!(v.k === 'lit' && v.v === false)) bad('collapse', 'an expanded row does not collapse');
                                    }
                        }
                    });
                }
        }
    });
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    view(R);
    R.require('views', 60);
    return R.result({
        rule: 'for every combination of what the search finds, chosen order, kind of value and paging, the rows the table hands to its parts are the given items filtered, then ordered, then cut to the page, and the counts, page borders and reported lists agree with them; select-all and expansion affect exactly the items their predicates allow, and a predicate is always told the own position of the item it is asked about',
        explanation: 'Abstract interpretation of the table set-up and of the functions it hands to its parts. The items are opaque identities; only the relative order of their values, which of them the search finds and which of them the predicates allow are enumerated. Each step of the user or of the application is followed by the watchers it triggers.',
        assumptions: ['what text the search accepts is opaque', 'lists of three items stand for longer ones'],
    });
};
