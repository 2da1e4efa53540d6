import { baseStr, baseURLArb, baseVal, eq, expectURL, fc, makeServer, ok } from '../lib/kit.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'

const names = ['X-Title', 'x-trace-id', 'HTTP-Referer', 'User-Agent', 'Authorization', 'authorization', 'Content-Type', 'content-type', 'Accept', 'api-key', 'OpenAI-Organization']
const value = () => fc.oneof(fc.constantFrom('v', '', 'Bearer user-token', 'application/json; charset=utf-8', 'a,b', '0'), fc.string({ unit: fc.constantFrom(...'abcXYZ019-_.=/ '), minLength: 1, maxLength: 8 }).map(s => s.trim() || 'q'))

export default ({ lib }) => {
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  return {
    rule: 'A case is one client entry point, a generated base URL (string or URL object, with/without path, port and trailing slash), optional API key, and user headers given as a record or a Headers object, including ones that override defaults. Non-trivial: user headers present, or a base URL with a path. Oracle: base + endpoint path; default headers overlaid by the user\'s, case-insensitively.',
    subs: [{
      name: 'transport',
      runs: 9000,
      arb: () => endpointCase(eps, () => true, {
        base: baseURLArb(),
        apiKey: fc.option(fc.constantFrom('sk-1', '', 'key with space', 'k'), { nil: undefined }),
        headers: fc.option(fc.uniqueArray(fc.tuple(fc.constantFrom(...names), value()), { selector: ([k]) => k.toLowerCase(), maxLength: 4 }), { nil: undefined }),
        form: fc.constantFrom('record', 'Headers'),
        // now and then many more of them
        filler: fc.oneof({ weight: 40, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 10, max: 120 }) }),
        dropped: fc.boolean(),
        viaGlobal: fc.boolean(),
        signal: fc.boolean(),
      }),
      check: async (c, t) => {
        const ep = by[c.ep]
        const srv = makeServer(() => ep.reply(c.spec))
        const trap = makeServer(() => ep.reply(c.spec))
        const ac = new AbortController()
        if (c.headers) c.headers = [...Array.from({ length: c.filler }, (_, i) => [`x-filler-${i}`, `f${i}`]), ...c.headers]
        let headers
        if (c.headers) {
          headers = c.form === 'Headers' ? new Headers(c.headers) : Object.fromEntries(c.headers)
          if (c.dropped && c.form === 'record') headers['x-dropped'] = undefined
        }
        const options = { ...ep.options(c.spec), baseURL: baseVal(c.base), ...(c.apiKey !== undefined ? { apiKey: c.apiKey } : {}), ...(headers ? { headers } : {}), ...(c.signal ? { abortSignal: ac.signal } : {}) }
        const saved = globalThis.fetch
        const inputs = []
        const spy = s => (input, init) => { inputs.push(input); return s.fetch(input, init) }
        globalThis.fetch = spy(c.viaGlobal ? srv : trap)
        if (!c.viaGlobal) options.fetch = spy(srv)
        try { await ep.run(options) }
        finally { globalThis.fetch = saved }
        eq(trap.log.length, 0, `${c.ep}: a custom fetch was given but the global one was used`)
        eq(srv.log.length, 1, `${c.ep}: number of requests`)
        const r = srv.log[0]
        t.cls(c.ep, c.form)
        t.nontrivial((c.headers?.length ?? 0) > 0 || c.base.path.length > 0)
        const path = typeof ep.path === 'function' ? ep.path(c.spec) : ep.path
        eq(r.url, new URL(expectURL(c.base, path)).href, `${c.ep}: request URL for base ${baseStr(c.base)}`)
        ok(inputs[0] instanceof URL, `${c.ep}: fetch must be handed a URL object`)
        eq(r.method, ep.method, `${c.ep}: method`)
        ok(c.signal ? r.signal === ac.signal : r.signal === undefined, `${c.ep}: the abort signal must be handed to fetch`)
        const want = {}
        if (c.apiKey !== undefined) want.authorization = `Bearer ${c.apiKey}`.trim()
        if (ep.method === 'POST' && !ep.form) want['content-type'] = 'application/json'
        for (const [k, v] of c.headers ?? []) want[k.toLowerCase()] = v
        eq(r.headers, want, `${c.ep}: request headers`)
      },
    }],
  }
}
