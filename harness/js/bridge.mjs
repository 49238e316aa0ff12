// Line-wise JSON over stdin and stdout, read and written synchronously.
import fs from 'node:fs';
let left = '';
export function readLine() {
	const buf = Buffer.alloc(1 << 16);
	const dec = new TextDecoder();
	while (!left.includes('\n')) {
		const n = fs.readSync(0, buf, 0, buf.length, null);
		if (n === 0) process.exit(0);
		left += dec.decode(buf.subarray(0, n), {stream: true});
	}
	const i = left.indexOf('\n');
	const line = left.slice(0, i);
	left = left.slice(i + 1);
	return JSON.parse(line);
}
export function write(o) {
	const b = Buffer.from(JSON.stringify(o) + '\n');
	for (let p = 0; p < b.length;) p += fs.writeSync(1, b, p);
}
export function rpc(o) { write(o); return readLine(); }
export async function turns(n) { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); }
export const hex = b => Buffer.from(b).toString('hex');
export const unhex = s => new Uint8Array(Buffer.from(s, 'hex'));
// What the stand-in for the WASM glue code saw being done wrong.
export const state = { misuse: [], instance: null, loads: 0, loadTurns: 0 };
