// Stands in for the glue code that wasm-bindgen generates: the calls go to the native build of the same wrappers. As in the
// generated code, initializing twice while loading gives two instances, and objects belong to the instance that made them.
import { rpc, turns, hex, unhex, state } from './bridge.mjs';
export default async function init() {
	if (state.instance !== null) return state.instance;
	await turns(state.loadTurns);
	state.instance = { id: ++state.loads };
	return state.instance;
}
function bad(why) { state.misuse.push(why); throw new Error(why); }
class WASMProofBuilder { constructor(id) { this.id = id; this.instance = state.instance; } }
function ready() { if (state.instance === null) bad('a wrapper is called before the module is loaded'); }
function builder(b) {
	ready();
	if (!(b instanceof WASMProofBuilder)) bad('not a proof builder: ' + b);
	if (b.id === 0) bad('a proof builder is used after it was consumed');
	if (b.instance !== state.instance) bad('a proof builder is used with another instance of the module');
	return b.id;
}
function bytes(b) {
	if (b == null || typeof b.length !== 'number') bad('not an array of bytes: ' + b);
	return hex(Uint8Array.from(b));
}
export function init_proof_builder(name, ty) {
	ready();
	if (typeof name !== 'string') bad('not a string: ' + name);
	const r = rpc({ init: [name, ty & 0xffff] });
	return r.b == null ? undefined : new WASMProofBuilder(r.b);
}
export function process_query_response(b, response) { rpc({ resp: [builder(b), bytes(response)] }); }
export function get_next_query(b) {
	const r = rpc({ next: builder(b) });
	return r.q == null ? undefined : unhex(r.q);
}
export function get_unverified_proof(b) {
	const id = builder(b);
	b.id = 0;
	const r = rpc({ proof: id });
	return r.p == null ? undefined : unhex(r.p);
}
export function verify_byte_stream(stream) { ready(); return rpc({ verify: bytes(stream) }).t; }
