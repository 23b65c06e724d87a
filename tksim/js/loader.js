// A browser page (or a server process) with a module loader, in one turn-based
// simulation: every delivery of a script, failure, duplicate and step of a
// client is a turn, and the plan decides which of the possible turns is next.
'use strict';
const vm = require('vm');
const plan = JSON.parse(require('fs').readFileSync(0, 'utf8'));

const history = [];
let turns = 0, choice = 0;
const stats = {error: 0, truncated: 0, duplicate: 0, delay: 0, evicted: 0};

const page = vm.createContext({});
vm.runInContext('this.' + plan.host + ' = this;' +
    'Math.random = function () { throw new Error("randomness") };' +
    'Date = undefined;', page);
for (const k of Object.keys(plan.globals)) {
    page[k] = decode(plan.globals[k]);
}
const before = Object.getOwnPropertyNames(page).concat(['require', 'define', '$']);

// -- the loader ---------------------------------------------------------------
const modules = {};      // name -> {state, deps, factory, exports}
const attempts = {};
let pending = [];        // turns of the network
let current = null;      // the script that runs

function mod(name) {
    return modules[name] || (modules[name] = {state: 'none'});
}

function outcome(name) {
    const n = attempts[name] = (attempts[name] || 0) + 1;
    return (plan.net[name] || [])[n - 1] || 'ok';
}

function request(name) {
    const m = mod(name);
    if (m.state !== 'none') {
        return;
    }
    m.state = 'requested';
    const o = outcome(name);
    const script = plan.bundle && plan.bundle.indexOf(name) >= 0 ? plan.bundle : [name];
    let hops = 0;
    if (o.slice(0, 5) === 'delay') {
        hops = +o.slice(5);
        stats.delay++;
    }
    pending.push({script: script, name: name, what: o, hops: hops});
    if (o === 'duplicate') {
        pending.push({script: script, name: name, what: 'again', hops: 0});
    }
}

function named(name, code) {
    return code.replace(/define\(/, 'define(' + JSON.stringify(name) + ', ');
}

function run(names, cut) {
    let code = names.length === 1 && !plan.bundle ? plan.modules[names[0]] :
        names.map(function (n) { return named(n, plan.modules[n]); }).join(';\n');
    if (cut) {
        code = code.slice(0, Math.floor(code.length * cut));
    }
    current = names[0];
    try {
        vm.runInContext(code, page, {filename: names[0]});
    } catch (e) {
        if (!cut) {
            history.push(['script-error', names[0], String(e)]);
        }
    }
    current = null;
}

function arrive(p) {
    if (p.what === 'error' || p.what === 'truncated') {
        stats[p.what]++;
        if (p.what === 'truncated') {
            run(p.script, 0.1 + 0.8 * ((p.name.length * 7 + turns) % 10) / 10);
        }
        if (mod(p.name).state === 'requested') {
            mod(p.name).state = 'none';     // require.undef
            failed(p.name);
        }
    } else {
        if (p.what === 'again') {
            stats.duplicate++;
        }
        run(p.script);
        for (const n of p.script) {
            if (mod(n).state === 'requested') {
                history.push(['no-define', n]);
                mod(n).state = 'dead';
            }
        }
    }
    settle();
}

page.define = function (name, deps, factory) {
    if (typeof name !== 'string') {
        factory = deps;
        deps = name;
        name = current;
    }
    if (plan.style === 'sync') {
        // as the loaders of node do: dependencies now, factory now
        const values = deps.map(page.require);
        Object.assign(mod(name), {state: 'ready', exports: factory.apply(null, values)});
        return;
    }
    const m = mod(name);
    if (m.state === 'defined' || m.state === 'ready') {
        return;
    }
    m.state = 'defined';
    m.deps = deps;
    m.factory = factory;
    deps.forEach(request);
};

function construct(name) {
    const m = mod(name);
    const values = m.deps.map(function (d) { return modules[d].exports; });
    m.exports = m.factory.apply(null, values);
    m.state = 'ready';
}

// run the factories that can be run, in an order that the plan decides
function settle() {
    if (plan.style !== 'eager') {
        return;
    }
    for (;;) {
        const can = Object.keys(modules).filter(function (n) {
            const m = modules[n];
            return m.state === 'defined' && m.deps.every(function (d) { return mod(d).state === 'ready'; });
        });
        if (!can.length) {
            return;
        }
        const name = can[pick(can.length)];
        try {
            construct(name);
        } catch (e) {
            history.push(['factory-error', name, String(e)]);
            modules[name].state = 'dead';
        }
    }
}

page.require = function (name) {
    if (name.slice(0, 2) === './') {
        name = name.slice(2);
    }
    const m = mod(name);
    if (m.state === 'ready') {
        return m.exports;
    }
    if (plan.style === 'lazy' && m.state === 'defined') {
        m.state = 'running';
        m.deps.forEach(page.require);
        construct(name);
        return m.exports;
    }
    if (plan.style === 'sync' && m.state === 'none') {
        const o = outcome(name);
        if (o === 'error' || o === 'truncated') {
            stats[o]++;
            throw Object.assign(new Error('cannot read ' + name), {net: true});
        }
        const outer = current;
        current = name;
        try {
            vm.runInContext(plan.modules[name], page, {filename: name});
        } finally {
            current = outer;
        }
        return mod(name).exports;
    }
    throw new Error('Module ' + name + ' has not been loaded yet');
};

function complete(name, seen) {
    const m = mod(name);
    if (plan.style === 'eager') {
        return m.state === 'ready';
    }
    seen = seen || {};
    if (seen[name]) {
        return true;
    }
    seen[name] = true;
    return m.state === 'ready' || m.state === 'defined' && m.deps.every(function (d) { return complete(d, seen); });
}

// -- the clients --------------------------------------------------------------
const contexts = plan.ctxs.map(function (c) {
    const o = {t: probe};
    Object.keys(c).forEach(function (k) { o[k] = decode(c[k]); });
    return plan.frozen ? Object.freeze(o) : o;
});
const bound = {};
const frames = [];       // renders that are going on
const tasks = plan.tasks.map(function (steps, i) { return {steps: steps, at: 0, waits: null, id: i}; });

function Failure(text) {
    this.text = text;
}

function decode(v) {
    switch (v[0]) {
    case 'undef':
        return undefined;
    case 'l':
        return v[1].map(decode);
    case 'rep':
        return new Array(v[1]).fill('r');
    case 'html':
        return {html: function () { log(['conv', v[2]]); return v[1]; },
                toString: function () { log(['conv', v[2]]); return v[1]; }};
    case 'str':
        return {toString: function () { log(['conv', v[2]]); return v[1]; }};
    case 'throws':
        return {toString: function () { throw fail(v[1]); }};
    case 'h':
        return bound[v[1]];
    default:
        return v[1];
    }
}

function fail(what) {
    const f = frames[frames.length - 1];
    const e = what === 'text' ? 'thrown text' : what === 'type' ? new TypeError('thrown') : new Failure('thrown');
    if (f) {
        f.thrown = e;
    }
    return e;
}

function log(e) {
    const f = frames[frames.length - 1];
    if (f) {
        f.log.push(e);
    }
}

function probe(k, v) {
    const f = frames[frames.length - 1];
    if (!f) {
        return v;
    }
    log(['p', k]);
    const n = f.count[k] = (f.count[k] || 0) + 1;
    const a = f.nest[k];
    if (a && a.at === n - 1) {
        if (a['throw']) {
            throw fail(a['throw']);
        }
        a.steps.forEach(step);
    }
    return v;
}

function render(op) {
    const [, id, h, how, nest] = op;
    const b = bound[h];
    if (!b) {
        return;
    }
    const f = {log: [], count: {}, nest: nest, thrown: null};
    frames.push(f);
    let result;
    try {
        let text;
        if (how === 'concat') {
            text = '' + b;
        } else if (how === 'render' || how === 'html' || how === 'toString') {
            text = b[how]();
        } else {
            // with jQuery
            const got = [];
            page.$ = function (html) {
                const frag = {};
                frag[how] = function () {
                    got.push(this === frag, Array.prototype.slice.call(arguments));
                    return 'done';
                };
                text = html;
                return frag;
            };
            const r = b[how]('#x', 3);
            if (r !== 'done' || JSON.stringify(got) !== '[true,["#x",3]]') {
                text = 'wrong call ' + JSON.stringify([r, got]);
            }
        }
        result = ['ok', typeof text === 'string' ? text : 'not a string: ' + typeof text];
    } catch (e) {
        result = e === f.thrown && e !== null ? ['thrown'] : ['error', String(e && e.stack || e)];
        frames.length = frames.indexOf(f) + 1;
        if (frames.length > 1) {
            // a render inside of another: its caller gets the error
            const outer = frames[frames.length - 2];
            if (result[0] === 'thrown' && op[5] === 'pass') {
                outer.thrown = e;
                frames.pop();
                history.push(['render', id, result, f.log]);
                throw e;
            }
        }
    }
    frames.pop();
    history.push(['render', id, result, f.log]);
}

function step(s) {
    switch (s[0]) {
    case 'bind':
        history.push(['bind', s[1]]);
        try {
            bound[s[1]] = page.require(s[2])(contexts[s[3]]);
        } catch (e) {
            history.push(['bind-error', s[1], String(e && e.stack || e)]);
        }
        break;
    case 'set':
        history.push(['set', s[1]]);
        contexts[s[2]][s[3]] = decode(s[4]);
        break;
    case 'render':
        history.push(['start', s[1]]);
        render(s);
        break;
    }
}

function failed(name) {
    // the error callback of everybody who waits: ask again
    tasks.forEach(function (t) {
        if (t.waits) {
            t.again = true;
        }
    });
}

function turn(t) {
    const s = t.steps[t.at];
    if (s[0] !== 'need') {
        t.at++;
        step(s);
        return;
    }
    if (plan.style === 'sync') {
        try {
            s[1].forEach(page.require);
            t.at++;
        } catch (e) {
            if (!e.net) {
                history.push(['require-error', String(s[1]), String(e && e.stack || e)]);
                t.at++;
            }
        }
        return;
    }
    if (!t.waits || t.again) {
        t.waits = s[1];
        t.again = false;
        s[1].forEach(reach);
        return;
    }
    t.waits = null;
    t.at++;
}

// ask for a module and all that it needs
function reach(name) {
    const m = mod(name);
    if (m.state === 'none') {
        request(name);
    } else if (m.state === 'defined') {
        m.deps.forEach(reach);
    }
}

function canRun(t) {
    if (t.at >= t.steps.length) {
        return false;
    }
    if (t.waits && !t.again) {
        return t.waits.every(function (n) { return complete(n); });
    }
    return true;
}

function pick(n) {
    return n < 2 ? 0 : (plan.choices[choice++] || 0) % n;
}

for (;;) {
    const net = pending.map(function (p) { return function () { deliver(p); }; });
    const run = tasks.filter(canRun).map(function (t) { return function () { turn(t); }; });
    const all = net.concat(run);
    if (!all.length) {
        break;
    }
    if (++turns > 2000) {
        history.push(['endless']);
        break;
    }
    all[pick(all.length)]();
}

function deliver(p) {
    if (p.hops-- > 0) {
        return;
    }
    pending = pending.filter(function (x) { return x !== p; });
    arrive(p);
}

tasks.forEach(function (t) {
    if (t.at < t.steps.length) {
        history.push(['stuck', t.id, t.steps[t.at], Object.keys(modules).map(function (n) {
            return n + ':' + modules[n].state;
        })]);
    }
});
const leaked = Object.getOwnPropertyNames(page).filter(function (n) { return before.indexOf(n) < 0; });
process.stdout.write(JSON.stringify({history: history, turns: turns, choices: choice, stats: stats, leaked: leaked}));
