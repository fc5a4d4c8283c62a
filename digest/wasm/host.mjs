// node host.mjs <module> <cases> <results>
import fs from 'node:fs';
import { Worker, isMainThread } from 'node:worker_threads';
if (isMainThread) {
    // Functions are nested up to 200 times.
    const worker = new Worker(new URL(import.meta.url), { argv: process.argv.slice(2), resourceLimits: { stackSizeMb: 64 } });
    worker.on('error', (e) => { throw e; });
} else {
    run();
}

function run() {
    const [, , module, cases, results] = process.argv;
    const code = new WebAssembly.Module(fs.readFileSync(module));
    const input = fs.readFileSync(cases);
    const start = () => {
        const x = new WebAssembly.Instance(code, {}).exports;
        const at = x.reserve(input.length) >>> 0;
        new Uint8Array(x.memory.buffer).set(input, at);
        return x;
    };
    const output = (x) => Buffer.from(new Uint8Array(x.memory.buffer, x.output() >>> 0, x.length() >>> 0));
    let x = start();
    const n = x.count();
    const lines = [];
    const outputs = [];
    for (let i = 0; i < n; i++) {
        try {
            if (x.convert(i)) {
                outputs.push(output(x));
                lines.push(`ok ${outputs.at(-1).length}`);
            } else {
                lines.push(output(x).toString());
            }
        } catch (e) {
            if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
            // Nothing is known about the memory of an instance that trapped.
            lines.push(`panic`);
            console.error(`${i}: ${e.message}`);
            x = start();
        }
    }
    x.default();
    lines.push(`default ${output(x)}`, `end ${n}`, '');
    fs.writeFileSync(results, lines.join('\n'));
    fs.writeFileSync(`${results}.outputs`, Buffer.concat(outputs));
}
