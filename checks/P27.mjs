import { deepFreeze, eq, fc, ok, outcome, show, sized, text } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'
import { finalJSON } from '../lib/endpoints.mjs'

const DEFAULT_CODES = [408, 409, 425, 429, 500, 502, 503, 504]
const status = () => fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...DEFAULT_CODES) }, { weight: 3, arbitrary: fc.constantFrom(200, 201, 204, 300, 302, 400, 401, 403, 404, 418, 422, 501, 505, 529, 599, 424) }, { weight: 2, arbitrary: fc.constant('network') })
const opt = a => fc.oneof({ weight: 4, arbitrary: a.map(v => ({ v })) }, { weight: 1, arbitrary: fc.constant({ v: undefined }) }, { weight: 2, arbitrary: fc.constant(null) })
const config = () => fc.record({ retry: opt(fc.constantFrom(0, 1, 2, 3, 5, 7, 12, 40)), retryDelay: opt(fc.constantFrom(0, 1, 500, 30, 5000, 90000)), retryStatusCodes: opt(fc.constantFrom([], [429], [404, 503], [200], [300, 302, 503], [500, 502, 503, 504, 418])), debug: opt(fc.boolean()) })
const build = c => Object.fromEntries(Object.entries(c).filter(([, x]) => x !== null).map(([k, { v }]) => [k, v]))
const body = () => fc.oneof(
  fc.constant({ k: 'none' }), text(3).map(s => ({ k: 'text', s })), fc.uint8Array({ maxLength: 20 }).map(b => ({ k: 'bytes', b })),
  fc.uint8Array({ maxLength: 20 }).map(b => ({ k: 'blob', b })), text(2).map(s => ({ k: 'form', s })), text(2).map(s => ({ k: 'params', s })),
)
const request = () => fc.record({
  form: fc.constantFrom('string', 'url', 'request', 'request+init'), method: fc.constantFrom('GET', 'POST', 'PUT', 'DELETE'), body: body(),
  headers: fc.dictionary(fc.constantFrom('X-A', 'x-b', 'Authorization', 'Content-Type'), fc.constantFrom('1', 'two', 'text/plain'), { maxKeys: 3, noNullPrototype: true }),
  hform: fc.constantFrom('object', 'Headers', 'pairs'), signal: fc.boolean(), path: fc.constantFrom('/v1/x', '/', '/a?b=c%20d&e', '/ü'),
})
const mkBody = (b) => {
  switch (b.k) {
    case 'text': return b.s
    case 'bytes': return b.b
    case 'blob': return new Blob([b.b], { type: 'audio/wav' })
    case 'form': { const f = new FormData(); f.append('s', b.s); f.append('file', new Blob(['abc']), 'a.txt'); return f }
    case 'params': return new URLSearchParams({ s: b.s })
  }
}
// what one attempt really carries; reads the body like the network would (a used body throws)
const seeRequest = async (input, init) => {
  const r = new Request(input, init)
  const signal = init?.signal ?? (input instanceof Request ? input.signal : undefined)
  const bytes = Buffer.from(await r.arrayBuffer())
  const headers = Object.fromEntries(r.headers.entries())
  // multipart boundaries are random
  const plain = x => x.replaceAll(/-{4,}formdata-\w+-\d+/g, 'B')
  if (headers['content-type']) headers['content-type'] = plain(headers['content-type'])
  const text = plain(bytes.toString('latin1'))
  return { url: r.url, method: r.method, headers, body: text, signal }
}

export default ({ lib }) => {
  const { createFetch } = lib.xsfetch
  // runs `go` with a scripted global fetch; one script per URL path prefix /<n>
  const withNet = async (handler, go) => {
    const realFetch = globalThis.fetch
    const log = []
    globalThis.fetch = async (input, init) => {
      const rec = { ...(await seeRequest(input, init)), at: env.now }
      log.push(rec)
      if (log.length > 300) throw new Error('runaway: more than 300 requests')
      if (rec.signal?.aborted) throw rec.signal.reason
      return handler(rec, log)
    }
    try { return { result: await go(), log } }
    finally { globalThis.fetch = realFetch }
  }
  const mkRequest = (r, origin = 'https://net.example') => {
    const url = origin + r.path
    const hasBody = r.method !== 'GET' && r.body.k !== 'none'
    const headers = r.hform === 'Headers' ? new Headers(r.headers) : r.hform === 'pairs' ? Object.entries(r.headers) : r.headers
    const ctl = new AbortController()
    const init = { method: r.method, headers, ...(hasBody ? { body: mkBody(r.body) } : {}), ...(r.signal ? { signal: ctl.signal } : {}) }
    const args = r.form === 'string' ? [url, init] : r.form === 'url' ? [new URL(url), init] : r.form === 'request' ? [new Request(url, init)] : [new Request(url, { ...init, headers: { 'x-old': '1' } }), { headers, ...(r.signal ? { signal: ctl.signal } : {}) }]
    return { args, ctl, hasBody }
  }
  // oracle: the statuses attempted and the times of the attempts
  const model = (o, script) => {
    const retry = o.retry ?? 3
    const delay = o.retryDelay ?? 500
    const codes = o.retryStatusCodes ?? DEFAULT_CODES
    const out = []
    for (let i = 0; ; i++) {
      const s = script[Math.min(i, script.length - 1)]
      out.push({ s, at: i * delay })
      if (s === 'network' || (s >= 200 && s < 300) || i >= retry || !codes.includes(s)) return out
    }
  }
  const respond = (s, i, boom) => {
    if (s === 'network') throw boom
    return new Response(s === 204 ? null : `body ${i}`, { status: s, headers: { 'x-attempt': String(i) } })
  }
  return {
    rule: 'A case is a generated configuration (every option given, left out or undefined), a request in one of four forms with any method, headers and body kind, and a script of replies: success, retryable and other statuses, network errors. Non-trivial: at least one retry is due. Oracle: a counting model of attempts, times on a virtual clock, the content of every attempt and the outcome.',
    assumptions: ['bodies that can be read again (not one-shot streams)', 'network errors are not retried (as implemented and as the option names say)'],
    subs: [
      {
        name: 'retry', runs: 3000,
        arb: () => fc.record({ c: config(), none: fc.boolean(), r: request(), script: sized(fc.array(status(), { minLength: 1, maxLength: 7 }), fc.array(fc.constantFrom(...DEFAULT_CODES), { minLength: 10, maxLength: 50 })) }),
        check: async ({ c, none, r, script }, t) => {
          const o = none ? {} : deepFreeze(build(c))
          const want = model(o, script)
          t.nontrivial(want.length > 1); t.cls(r.form, r.body.k, `attempts=${want.length}`)
          const { args, ctl, hasBody } = mkRequest(r)
          const boom = new TypeError('fetch failed')
          const fetch = none ? createFetch() : createFetch(o)
          const t0 = env.now
          const { result, log } = await withNet((_, log) => respond(script[Math.min(log.length - 1, script.length - 1)], log.length - 1, boom), () => outcome(fetch(...args)))
          ok(log.length === want.length, () => `${log.length} requests instead of ${want.length} (${show(o)}, ${show(script)}): ${show(result.error ?? result.value?.status)}`)
          eq(log.map(x => x.at - t0), want.map(w => w.at), 'times of the attempts')
          const first = log[0]
          log.forEach((x, i) => {
            eq({ ...x, at: 0, signal: null }, { ...first, at: 0, signal: null }, `attempt ${i} carries the same request`)
            if (r.signal && r.form !== 'request') ok(x.signal === ctl.signal, `attempt ${i} carries the signal`)
          })
          const ref = await seeRequest(...mkRequest(r).args)
          eq({ url: first.url, method: first.method, headers: first.headers, body: first.body }, { url: ref.url, method: ref.method, headers: ref.headers, body: ref.body }, 'the request as given')
          if (hasBody && r.body.k === 'bytes') ok(first.body === Buffer.from(r.body.b).toString('latin1'), 'body bytes')
          const last = want.at(-1)
          if (last.s === 'network') ok(!result.ok && result.error === boom, () => `a network error became ${show(result)}`)
          else {
            ok(result.ok && result.value.status === last.s && result.value.headers.get('x-attempt') === String(want.length - 1), () => `outcome ${show(result)} is not that of the last attempt`)
            eq(await result.value.text(), last.s === 204 ? '' : `body ${want.length - 1}`, 'body of the last reply, unread')
          }
        },
      },
      {
        name: 'abort', runs: 600,
        arb: () => fc.record({ retry: fc.integer({ min: 1, max: 5 }), delay: fc.constantFrom(10, 500), at: fc.integer({ min: 0, max: 4 }), form: fc.constantFrom('init', 'request') }),
        check: async ({ retry, delay, at, form }, t) => {
          t.nontrivial(); t.cls(form)
          const ctl = new AbortController()
          const boom = new Error('stop')
          const when = at * delay + Math.floor(delay / 2)
          env.at(env.now + when, () => ctl.abort(boom))
          const fetch = createFetch({ retry, retryDelay: delay })
          const { result, log } = await withNet(() => new Response('busy', { status: 503 }), () => outcome(form === 'init' ? fetch('https://net.example/', { signal: ctl.signal }) : fetch(new Request('https://net.example/', { signal: ctl.signal }))))
          const sent = log.filter(x => x.at <= when).length
          ok(sent === Math.min(at, retry) + 1, () => `${sent} requests before the abort`)
          if (at < retry) {
            ok(!result.ok && result.error === boom, () => `an aborted request gave ${show(result)}`)
            ok(log.length <= sent + 1, () => `${log.length - sent} further requests were tried after the abort`)
          }
          else ok(result.ok && result.value.status === 503, 'the abort came after the last attempt')
        },
      },
      {
        name: 'concurrent', runs: 800,
        arb: () => fc.record({ c: config(), calls: fc.array(fc.record({ script: fc.array(status(), { minLength: 1, maxLength: 5 }), start: fc.constantFrom(0, 0, 3) }), { minLength: 2, maxLength: 4 }) }),
        check: async ({ c, calls }, t) => {
          const o = build(c)
          const wants = calls.map(x => model(o, x.script))
          t.nontrivial(wants.filter(w => w.length > 1).length > 1)
          const fetch = createFetch(o)
          const booms = calls.map((_, i) => new Error(`net ${i}`))
          const { result, log } = await withNet((rec, log) => {
            const n = Number(new URL(rec.url).pathname.slice(1))
            const i = log.filter(x => x.url === rec.url).length - 1
            return respond(calls[n].script[Math.min(i, calls[n].script.length - 1)], i, booms[n])
          }, () => Promise.all(calls.map(async (x, n) => { if (x.start) await env.sleep(x.start); return outcome(fetch(`https://net.example/${n}`)) })))
          calls.forEach((_, n) => {
            const mine = log.filter(x => x.url.endsWith(`/${n}`))
            ok(mine.length === wants[n].length, () => `call ${n}: ${mine.length} requests instead of ${wants[n].length}`)
            const last = wants[n].at(-1).s
            if (last === 'network') ok(!result[n].ok && result[n].error === booms[n], `call ${n}: own network error`)
            else ok(result[n].ok && result[n].value.status === last, () => `call ${n}: ${show(result[n])} instead of ${last}`)
          })
        },
      },
      {
        name: 'odd-counts', runs: 300,
        arb: () => fc.record({ retry: fc.constantFrom(-1, Number.NaN, 0, -7), code: fc.constantFrom(429, 503) }),
        check: async ({ retry, code }, t) => {
          t.nontrivial()
          const { result, log } = await withNet(() => new Response('busy', { status: code }), () => outcome(createFetch({ retry, retryDelay: 1 })('https://net.example/')))
          ok(log.length === 1 && result.ok && result.value.status === code, () => `${log.length} requests with retry ${retry}`)
        },
      },
      {
        name: 'as-transport', runs: 500,
        arb: () => fc.record({ fails: fc.integer({ min: 0, max: 5 }), retry: fc.integer({ min: 0, max: 4 }), prompt: text(3) }),
        check: async ({ fails, retry, prompt }, t) => {
          t.nontrivial(fails > 0)
          const { result, log } = await withNet((_, log) => log.length <= fails ? new Response('busy', { status: 503 }) : new Response(JSON.stringify(finalJSON('fine'))), () => outcome(lib.xsai.generateText({ baseURL: 'https://net.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: prompt }], fetch: createFetch({ retry, retryDelay: 5 }) })))
          ok(log.length === Math.min(fails, retry) + 1, () => `${log.length} requests`)
          for (const x of log) eq(x.body, log[0].body, 'every attempt carries the same body')
          eq(JSON.parse(Buffer.from(log[0].body, 'latin1').toString()).messages, [{ role: 'user', content: prompt }], 'body')
          if (fails <= retry) ok(result.ok && result.value.text === 'fine', () => `failed: ${show(result.error)}`)
          else ok(!result.ok && lib.shared.APICallError.isInstance(result.error) && result.error.statusCode === 503, () => `unexpected ${show(result)}`)
        },
      },
    ],
  }
}
