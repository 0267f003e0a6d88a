// A participant in JavaScript: obeys commands, one per line; "ev" lines tell when promises settle.
'use strict';
const fs = require('fs');
const path = require('path');
const { Worker, isMainThread, parentPort } = require('worker_threads');
const { join, SelectorMode, LabelOp } = require(process.env.VH_ADDON);

const ends = new Map(); // id -> { sender, receiver }
const msgs = new Map(); // promise -> message
const unhex = (s) => (s === '-' ? Buffer.alloc(0) : Buffer.from(s, 'hex'));
const text = (s) => unhex(s).toString('utf8');
const opt = (s) => (s === 'null' ? null : s === 'undefined' ? undefined : Number(s));
const one = (e) => String(e && e.message !== undefined ? e.message : e).replace(/\s+/g, '_');

// Prefix notation: T, F, L<length>:<text>, N<op>, A<op><op>, O<op><op>
function parse(b, at) {
    const c = String.fromCharCode(b[at.i++]);
    if (c === 'T' || c === 'F') return new LabelOp(c === 'T');
    if (c === 'L') {
        const e = b.indexOf(58, at.i);
        const n = Number(b.subarray(at.i, e).toString());
        at.i = e + 1 + n;
        return new LabelOp(b.subarray(e + 1, at.i).toString('utf8'));
    }
    const l = parse(b, at);
    if (c === 'N') l.not();
    else {
        const r = parse(b, at);
        if (c === 'A') l.and(r);
        else l.or(r);
    }
    return l;
}

function identity(o) {
    try {
        return String(fs.fstatSync(Number(o.value())).ino);
    } catch (e) {
        return 'closed';
    }
}

function describe(m) {
    const d = m.bytesMessage.data;
    const regions = m.memoryRegions.map((r) => r.map(0, -1).toString('hex') || '-');
    return `${m.bytesMessage.format} ${d.toString('hex') || '-'} ${m.objects.map(identity).join(',') || '-'} ${regions.join(',') || 'none'}`;
}

function execute(w, out) {
    switch (w[0]) {
        case 'join': {
            const label = w[3] === '-' ? [] : w[3].split(',').map(text);
            try {
                const e = join({ identifier: text(w[2]), label, token: text(w[4]), controllerAffinity: w[5] === '1' }, opt(w[6]));
                ends.set(w[1], e);
                return 'ok';
            } catch (e) {
                return 'err ' + one(e);
            }
        }
        case 'recv': {
            const p = w[2];
            const t = process.hrtime.bigint();
            let promise;
            try {
                promise = ends.get(w[1]).receiver.recv(opt(w[3]));
            } catch (e) {
                return 'err ' + one(e);
            }
            const took = () => process.hrtime.bigint() - t;
            promise.then(
                (m) => {
                    msgs.set(p, m);
                    out(`ev ${p} ${took()} ok ${describe(m)}`);
                },
                (e) => out(`ev ${p} ${took()} err ${one(e)}`),
            );
            return 'ok';
        }
        case 'recvs': {
            // Many at once: first promise, how many, timeouts in turn
            const ts = w[4].split(',');
            for (let i = 0; i < Number(w[3]); i++) {
                const r = execute(['recv', w[1], String(Number(w[2]) + i), ts[i % ts.length]], out);
                if (r !== 'ok') return r;
            }
            return 'ok';
        }
        case 'send': {
            try {
                const b = unhex(w[3]);
                const labelOp = parse(b, { i: 0 });
                const mode = w[2] === 'u' ? SelectorMode.Unicast : SelectorMode.Multicast;
                ends.get(w[1]).sender.send({ labelOp, mode, ttl: Number(w[4]) }, { format: Number(w[5]), data: unhex(w[6]) }, w.slice(7).map(unhex));
                return 'ok';
            } catch (e) {
                return 'err ' + one(e);
            }
        }
        case 'op':
            return parse(unhex(w[1]), { i: 0 }).toString().replace(/\s+/g, ' ');
        case 'map': {
            try {
                return msgs.get(w[1]).memoryRegions[Number(w[2])].map(Number(w[3]), Number(w[4])).toString('hex') || '-';
            } catch (e) {
                return 'err ' + one(e);
            }
        }
        case 'drop':
            msgs.delete(w[1]);
            return 'ok';
        case 'close': {
            const t = process.hrtime.bigint();
            ends.get(w[1]).receiver.close();
            return 'ok ' + (process.hrtime.bigint() - t);
        }
        case 'busy': {
            // The event loop stands still
            const end = Date.now() + Number(w[1]);
            while (Date.now() < end);
            return 'ok';
        }
        case 'leave':
            ends.delete(w[1]);
            return 'ok';
        case 'fds':
            return String(fs.readdirSync('/proc/self/fd').length);
        default:
            return 'unknown';
    }
}

if (!isMainThread) {
    parentPort.on('message', (w) => parentPort.postMessage(execute(w, (s) => parentPort.postMessage(s))));
    parentPort.postMessage('ok');
} else {
    const put = (s) => {
        const b = Buffer.from(s + '\n');
        let n = 0;
        while (n < b.length) {
            try {
                n += fs.writeSync(1, b, n);
            } catch (e) {
                if (e.code !== 'EAGAIN') throw e;
            }
        }
    };
    const workers = new Map();
    const rl = require('readline').createInterface({ input: process.stdin, terminal: false });
    rl.on('line', (line) => {
        const w = line.split(' ');
        if (w[0] === 'quit') {
            rl.close();
            process.stdin.destroy();
            put('bye');
        } else if (w[0] === 'exit') {
            put('bye');
            process.exit(0);
        } else if (w[0] === 'gc') {
            // Finalizers run from the event loop
            let n = 0;
            const turn = () => {
                global.gc();
                if (++n < 4) setTimeout(turn, 2);
                else put('ok');
            };
            turn();
        } else if (w[0] === 'wstart') {
            const k = new Worker(__filename);
            k.on('message', (s) => put(s));
            k.on('error', (e) => put('worker-error ' + one(e)));
            workers.set('@' + w[1], k);
        } else if (w[0] === 'wstop') {
            const k = workers.get('@' + w[1]);
            workers.delete('@' + w[1]);
            k.terminate().then(() => put('ok'), (e) => put('err ' + one(e)));
        } else if (w[0].startsWith('@')) {
            workers.get(w[0]).postMessage(w.slice(1));
        } else {
            put(execute(w, put));
        }
    });
}
