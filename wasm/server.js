// server.js MODULE: answers requests on stdin (length, content) on stdout (status, length, content).
'use strict';
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let instance = null;
let said = '';

function fresh() {
    said = '';
    instance = new WebAssembly.Instance(module_, {
        env: {
            report: (ptr, len) => {
                said = Buffer.from(instance.exports.memory.buffer, ptr >>> 0, len >>> 0).toString();
            },
        },
    });
}

function read(n) {
    const b = Buffer.alloc(n);
    let got = 0;
    while (got < n) {
        let k;
        try {
            k = fs.readSync(0, b, got, n - got, null);
        } catch (e) {
            if (e.code === 'EAGAIN') continue;
            throw e;
        }
        if (k === 0) process.exit(0);
        got += k;
    }
    return b;
}

function write(b) {
    let done = 0;
    while (done < b.length) {
        try {
            done += fs.writeSync(1, b, done, b.length - done);
        } catch (e) {
            if (e.code !== 'EAGAIN') throw e;
        }
    }
}

function reply(status, content) {
    const head = Buffer.alloc(5);
    head.writeUInt8(status, 0);
    head.writeUInt32LE(content.length, 1);
    write(Buffer.concat([head, content]));
}

for (;;) {
    const request = read(read(4).readUInt32LE(0));
    try {
        if (instance === null) fresh();
        const e = instance.exports;
        const ptr = e.give(request.length) >>> 0;
        new Uint8Array(e.memory.buffer, ptr, request.length).set(request);
        const out = e.run(ptr, request.length) >>> 0;
        const len = new DataView(e.memory.buffer).getUint32(out, true);
        const content = Buffer.from(e.memory.buffer.slice(out + 4, out + 4 + len));
        e.take(out, len + 4);
        reply(0, content);
    } catch (e) {
        // the instance cannot be used any more
        instance = null;
        reply(1, Buffer.from(said || String(e)));
    }
}
