// Executes compiled templates: one JSON request per line, one JSON reply per line.
// request: {modules: {name: code}, calls: [[name, context source, method], ...]}
// reply: [["ok", text] | ["err", name, message], ...]
'use strict';
const fs = require('fs');
const vm = require('vm');
const readline = require('readline');
let runtime = null;

// what jQuery was asked to do with the text of a template
function jQuery(text) {
    const made = {};
    for (const how of ['appendTo', 'prependTo', 'insertAfter', 'insertBefore']) {
        made[how] = function () {
            return {done: how + '(' + Array.prototype.join.call(arguments) + ') ' + text};
        };
    }
    return made;
}

function load(code, mods, dollar) {
    let result;
    const define = function (deps, factory) {
        result = [deps, factory];
    };
    const req = function (name) { return mods(name); };
    (new Function('define', 'require', '$', code))(define, req, dollar);
    return result;
}

function fresh(path) {
    const code = fs.readFileSync(path, 'utf8');
    return {code: code};
}

const src = fresh(process.argv[2]).code;

function environment(codes) {
    const loaded = {};
    const mods = function (name) {
        if (name === 'tonnikala/runtime') {
            if (!loaded[name]) {
                const r = load(src, mods, jQuery);
                loaded[name] = {value: r[1].apply(null, r[0].map(mods))};
            }
            return loaded[name].value;
        }
        if (!Object.prototype.hasOwnProperty.call(codes, name)) {
            throw new Error('no module ' + name);
        }
        if (!loaded[name]) {
            const r = load(codes[name], mods);
            loaded[name] = {value: r[1].apply(null, r[0].map(mods))};
        }
        return loaded[name].value;
    };
    return mods;
}

function context(source, runtime) {
    return (new Function('literal', 'Markup', '"use strict"; return (' + source + ');'))(runtime.literal);
}

const rl = readline.createInterface({input: process.stdin, terminal: false});
rl.on('line', function (line) {
    const req = JSON.parse(line);
    const before = Object.getOwnPropertyNames(globalThis).length;
    const rv = [];
    const mods = environment(req.modules);
    const objects = {};
    for (const call of req.calls) {
        try {
            const rt = mods('tonnikala/runtime');
            let ctx;
            if (call[2] && call[2].how === 'ops') {
                // [["bind", handle, template, context], ["change", handle, code], ["render" or ..., handle]]
                const bounds = {}, ctxs = {}, outs = [];
                for (const op of call[2].ops) {
                    if (op[0] === 'bind') {
                        ctxs[op[1]] = op[3] === null ? ctxs[op[1]] : context(op[3], rt);
                        bounds[op[1]] = mods(op[2])(ctxs[op[1]]);
                    } else if (op[0] === 'change') {
                        (new Function('ctx', op[2]))(ctxs[op[1]]);
                    } else if (/^(append|prepend|insert)/.test(op[0])) {
                        outs.push(bounds[op[1]][op[0]](...(op[2] || [])).done);
                    } else if (op[0] === 'embed') {
                        outs.push(mods(op[2])({q: bounds[op[1]]}).render());
                    } else {
                        outs.push(op[0] === 'toString' ? String(bounds[op[1]]) : op[0] === 'html' ? bounds[op[1]].html() : bounds[op[1]].render());
                    }
                }
                rv.push(['ok', outs.join('|')]);
                continue;
            }
            if (call[2] && call[2].same) {
                if (!objects[call[2].same]) {
                    objects[call[2].same] = context(call[1], rt);
                }
                ctx = objects[call[2].same];
            } else {
                ctx = context(call[1], rt);
            }
            if (call[2] && call[2].how === 'eval') {
                // the value of an expression by itself
                const names = Object.keys(ctx);
                const v = (new Function(...names, '"use strict"; return (' + call[0] + '\n);'))(...names.map((n) => ctx[n]));
                const kind = v === null || v === undefined ? 'nothing' : typeof v;
                rv.push(['ok', v && v.html ? v.html().toString() : String(v), kind, !!v, !!(v && v.html)]);
                continue;
            }
            const bound = mods(call[0])(ctx);
            const how = call[2] && call[2].how || 'render';
            let text;
            if (how === 'render') {
                text = bound.render();
            } else if (how === 'twice') {
                text = bound.render() + '|' + bound.render();
            } else if (how === 'toString') {
                text = String(bound);
            } else if (how === 'html') {
                text = bound.html();
            } else if (how === 'keys') {
                bound.render();
                text = Object.keys(ctx).sort().join();
            }
            rv.push(['ok', text]);
        } catch (e) {
            rv.push(['err', e && e.name || 'Error', String(e && e.message)]);
        }
    }
    if (Object.getOwnPropertyNames(globalThis).length !== before) {
        rv.push(['leak', Object.getOwnPropertyNames(globalThis).slice(before)]);
    }
    process.stdout.write(JSON.stringify(rv) + '\n');
});
