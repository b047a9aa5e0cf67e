'use strict';
// Collects measured counts and violations of one check run.
function report() {
    const counts = {};
    const violations = [];
    const fns = new Set();
    const sites = new Set();
    const opaque = new Set();
    let steps = 0, forks = 0, truncated = 0;
    const unknown = new Set();
    const samples = [];
    return {
        count(n, k = 1) {
            counts[n] = (counts[n] || 0) + k;
        },
        sample(s) {
            if (samples.length < 12) samples.push(s);
        },
        violation(v) {
            if (!violations.some((x) => x.key === v.key)) violations.push(v);
        },
        stats(s) {
            for (const f of s.functions) fns.add(f);
            for (const c of s.callSites) sites.add(c);
            for (const o of s.opaque) opaque.add(o);
            for (const u of s.unknownSyntax) unknown.add(u);
            if (!s.__seen) s.__seen = { steps: 0, forks: 0, truncated: 0 };
            steps += s.steps - s.__seen.steps;
            forks += s.forks - s.__seen.forks;
            truncated += s.truncated - s.__seen.truncated;
            s.__seen = { steps: s.steps, forks: s.forks, truncated: s.truncated };
        },
        // the subject of the check must be present: an analysis of nothing is an error, not a pass
        require(n, min) {
            if ((counts[n] || 0) < min && !violations.length) throw new Error(`nothing to analyse: ${n}=${counts[n] || 0}, expected at least ${min}`);
        },
        get counts() {
            return counts;
        },
        violations,
        result(r) {
            const coverage = { ...counts, ...(r.coverage || {}) };
            if (fns.size) Object.assign(coverage, { functions_interpreted: fns.size, call_sites: sites.size, opaque_callees: opaque.size, abstract_steps: steps, forks, truncated_states: truncated });
            if (unknown.size) coverage.unmodelled_syntax = [...unknown].slice(0, 20);
            if (samples.length) coverage.samples = samples;
            return { level: r.level || 'other', rule: r.rule, explanation: r.explanation, assumptions: r.assumptions, coverage, violations };
        },
    };
}
module.exports = { report };
