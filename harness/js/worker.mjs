// Runs lookups with doh_lookup.js as told on stdin, with fetch and the WASM module answered by the harness.
import { readLine, write, rpc, turns, unhex, state } from './bridge.mjs';
globalThis.fetch = async function(url, opts) {
	const h = new Headers(opts?.headers ?? (typeof url === 'object' ? url.headers : undefined) ?? {});
	const target = typeof url === 'object' && url !== null && 'url' in url ? url.url : String(url);
	const r = rpc({ fetch: [target, String(opts?.method ?? url?.method ?? 'GET').toUpperCase(), h.get('accept') ?? ''] });
	await turns(r.turns);
	const error = () => r.kind === 0 ? new TypeError(r.fail) : r.kind === 1 ? new DOMException(r.fail, 'AbortError') : r.kind === 2 ? r.fail : new Error(r.fail);
	if (r.fail != null && r.chunks.length === 0) throw error();
	let i = 0;
	const body = r.status === 204 ? null : new ReadableStream({
		async pull(c) {
			if (i < r.chunks.length) { const [t, x] = r.chunks[i++]; await turns(t); c.enqueue(unhex(x)); }
			else if (r.fail != null) c.error(error());
			else c.close();
		}
	});
	return new Response(body, { status: r.status, headers: { 'content-type': 'application/dns-message' } });
};
process.on('unhandledRejection', () => {});
let n = 0, busy = false;
process.on('beforeExit', () => { if (busy) { write({ stuck: 1 }); busy = false; main(); } });
async function one(m, l) {
	await turns(l.start);
	try {
		const r = await m.lookup_doh(l.domain, l.ty, l.endpoint);
		return typeof r === 'string' ? { text: r } : { odd: String(r) };
	} catch (e) { return { rejected: String(e) }; }
}
async function main() {
	for (;;) {
		busy = false;
		const cmd = readLine();
		busy = true;
		state.misuse.length = 0;
		state.instance = null;
		state.loadTurns = cmd.load;
		const m = await import('./doh_lookup.js?' + n++);
		const results = [];
		for (const g of cmd.groups) results.push(...await Promise.all(g.map(l => one(m, l))));
		write({ done: results, misuse: [...state.misuse] });
	}
}
main();
