// Shared building blocks of the checks: comparison, scripted HTTP servers, SSE rendering, generators.
import { createRequire } from 'node:module'
import { inspect, isDeepStrictEqual } from 'node:util'
import { env } from './env.mjs'

const req = createRequire('/opt/veriftools/node/node_modules/')
const fcAll = req('fast-check')
// lengths go up to the stated maximum: by default the library stops at ten entries more than the minimum
const full = o => o && (o.maxLength > 10 || o.maxKeys > 10) ? { size: 'max', ...o } : o
export const fc = {
  ...fcAll,
  array: (a, o) => fcAll.array(a, full(o)),
  uniqueArray: (a, o) => fcAll.uniqueArray(a, full(o)),
  string: o => fcAll.string(full(o)),
  uint8Array: o => fcAll.uint8Array(full(o)),
  dictionary: (k, v, o) => fcAll.dictionary(k, v, full(o)),
}
// evenly spread over [0, max): fc.double would pick almost only values next to 0
export const frac = (max = 1) => fc.integer({ min: 0, max: 9999 }).map(n => n * max / 10000)

// ---------------------------------------------------------------- comparison
export const show = (v, n = 1500) => {
  const s = typeof v === 'string' ? JSON.stringify(v) : inspect(v, { depth: 12, breakLength: 140, maxArrayLength: 60, maxStringLength: 400 })
  return s.length > n ? `${s.slice(0, n)}…` : s
}

// object properties explicitly set to undefined count as absent; everything else is compared strictly
export const strip = (v) => {
  if (Array.isArray(v)) return v.map(strip)
  if (v !== null && typeof v === 'object') {
    const p = Object.getPrototypeOf(v)
    if (p === Object.prototype || p === null) {
      const o = {}
      for (const k of Object.keys(v)) if (v[k] !== undefined) Object.defineProperty(o, k, { value: strip(v[k]), enumerable: true, writable: true, configurable: true })
      return o
    }
  }
  return v
}

export class Violation extends Error {
  constructor(m) { super(m); this.name = 'Violation' }
}

export const fail = (msg) => { throw new Violation(msg) }
export const ok = (cond, msg) => { if (!cond) fail(typeof msg === 'function' ? msg() : msg) }
export const eq = (actual, expected, label) => {
  if (!isDeepStrictEqual(strip(actual), strip(expected)))
    fail(`${label}\n  expected: ${show(strip(expected))}\n  actual:   ${show(strip(actual))}`)
}
export const same = (a, b) => isDeepStrictEqual(strip(a), strip(b))
export const json = v => JSON.parse(JSON.stringify(v))
export const clone = v => structuredClone(v)

// settle a promise into a value we can compare
// anything can be thrown, rejected with or given as an abort reason
export const thrown = () => fc.oneof({ weight: 5, arbitrary: fc.constant('error') }, { weight: 4, arbitrary: fc.constantFrom('typeError', 'object', 'string', 'empty', 'zero', 'false', 'null', 'undefined') })
export const mkThrown = k => ({ error: new Error('BOOM'), typeError: new TypeError('boom'), object: { code: 7 }, string: 'boom', empty: '', zero: 0, false: false, null: null, undefined })[k]
export const outcome = async p => Promise.resolve(p).then(value => ({ ok: true, value }), error => ({ ok: false, error }))

export const deepFreeze = (v) => {
  if (v !== null && typeof v === 'object' && !Object.isFrozen(v) && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype)) {
    Object.freeze(v)
    for (const k of Object.keys(v)) deepFreeze(v[k])
  }
  return v
}

// ---------------------------------------------------------------- streams
export const collect = async (stream, opts = {}) => {
  const chunks = []
  const reader = stream.getReader()
  try {
    while (true) {
      const { done, value } = await reader.read()
      if (done) return { chunks, end: 'closed' }
      chunks.push(value)
      if (opts.onChunk) await opts.onChunk(value, chunks.length)
      if (opts.cancelAfter != null && chunks.length >= opts.cancelAfter) {
        await reader.cancel(opts.reason)
        return { chunks, end: 'cancelled' }
      }
    }
  }
  catch (error) { return { chunks, end: 'errored', error } }
}

export const enc = new TextEncoder()
export const dec = new TextDecoder()

// cut an indexable value at normalised positions (numbers in [0,1))
export const cutPoints = (len, cuts) => [...new Set(cuts.map(c => Math.floor(c * (len + 1))))].filter(x => x > 0 && x < len).sort((a, b) => a - b)
export const splitBytes = (bytes, cuts) => {
  const out = []
  let last = 0
  for (const p of cutPoints(bytes.length, cuts)) { out.push(bytes.slice(last, p)); last = p }
  out.push(bytes.slice(last))
  return out
}
export const splitText = (str, cuts) => {
  const cps = Array.from(str)
  const out = []
  let last = 0
  for (const p of cutPoints(cps.length, cuts)) { out.push(cps.slice(last, p).join('')); last = p }
  out.push(cps.slice(last).join(''))
  return out
}

// ---------------------------------------------------------------- fake transport
// handler(req, index) -> { status, statusText, headers, body: string|Uint8Array|null, chunks: [{ bytes, delay }|{ error, delay }], latency, reject }
// Behaves like fetch: honours the abort signal before, during the request and while the body streams.
export const makeServer = (handler, { limit = 200 } = {}) => {
  const log = []
  const fetch = async (input, init) => {
    const rec = await describe(input, init)
    rec.at = env.now
    const signal = rec.signal
    rec.reached = !(signal?.aborted)
    log.push(rec)
    if (signal?.aborted) throw signal.reason
    if (log.length > limit) throw new Error(`runaway: more than ${limit} requests`)
    const r = await handler(rec, log.filter(x => x.reached).length - 1)
    if (r instanceof Response) return r
    if (r.latency) await abortable(env.sleep(r.latency), signal)
    if (signal?.aborted) throw signal.reason
    if ('reject' in r) throw r.reject
    rec.answeredAt = env.now
    return toResponse(r, signal, rec)
  }
  return { fetch, log, get sent() { return log.filter(x => x.reached) } }
}

const abortable = async (p, signal) => {
  if (!signal) return p
  return new Promise((resolve, reject) => {
    const on = () => reject(signal.reason)
    if (signal.aborted) return on()
    signal.addEventListener('abort', on, { once: true })
    p.then((v) => { signal.removeEventListener('abort', on); resolve(v) }, reject)
  })
}

export const describe = async (input, init = {}) => {
  if (typeof input === 'object' && input !== null && 'headers' in input && 'method' in input) {
    const hasBody = input.body != null
    return describe(input.url, {
      method: input.method, headers: input.headers, signal: init.signal ?? input.signal,
      body: hasBody ? await input.text() : undefined, ...init,
    })
  }
  const headers = Object.fromEntries(new Headers(init.headers ?? {}).entries())
  const rec = { url: String(input), method: (init.method ?? 'GET').toUpperCase(), headers, signal: init.signal ?? undefined, rawBody: init.body }
  if (typeof init.body === 'string') {
    rec.text = init.body
    try { rec.json = JSON.parse(init.body) }
    catch { /* not JSON */ }
  }
  else if (init.body instanceof FormData) { rec.form = [...init.body.entries()] }
  return rec
}

const toBytes = b => typeof b === 'string' ? enc.encode(b) : b

const toResponse = (r, signal, rec) => {
  const init = { status: r.status ?? 200, statusText: r.statusText ?? '', headers: r.headers ?? {} }
  if (r.body === null) { if (rec) rec.delivered = true; return new Response(null, init) }
  const chunks = r.chunks ?? [{ bytes: toBytes(r.body ?? '') }]
  let i = 0
  let off = () => {}
  const stream = new ReadableStream({
    start(c) {
      if (!signal) return
      const on = () => { i = Infinity; try { c.error(signal.reason) } catch { /* closed */ } }
      signal.addEventListener('abort', on, { once: true })
      off = () => signal.removeEventListener('abort', on)
    },
    async pull(c) {
      if (i >= chunks.length) {
        if (i !== Infinity) { if (rec) rec.delivered = true; off(); try { c.close() } catch { /* errored */ } }
        return
      }
      const ch = chunks[i]
      if (ch.delay) await env.sleep(ch.delay)
      if (i === Infinity) return
      i++
      if ('error' in ch) { off(); c.error(ch.error); return }
      ch.sent?.(env.now)
      c.enqueue(toBytes(ch.bytes))
      if (i >= chunks.length) { if (rec) rec.delivered = true; off(); c.close() }
    },
    cancel(reason) { off(); i = Infinity; if (rec) rec.cancelled = { reason } },
  })
  return new Response(stream, init)
}

export const jsonReply = (value, extra = {}) => ({ status: 200, headers: { 'content-type': 'application/json' }, body: JSON.stringify(value), ...extra })

// ---------------------------------------------------------------- SSE rendering
// style: { nl, space, comments, done, ids }
export const sseText = (payloads, style = {}) => {
  const nl = style.nl ?? '\n'
  const sp = style.space === false ? '' : ' '
  let out = ''
  payloads.forEach((p, i) => {
    if (style.comments && i % 3 === 1) out += `: keep-alive ${i}${nl}${style.comments === 2 ? nl : ''}`
    if (style.ids) out += `id:${sp}${i}${nl}`
    if (style.events) out += `event:${sp}${typeof style.events === 'string' ? style.events : typeof p === 'object' && p?.type ? p.type : 'message'}${nl}`
    const data = typeof p === 'string' ? p : JSON.stringify(p)
    out += `data:${sp}${data}${nl}${nl}`
  })
  if (style.done !== false) out += `data:${sp}[DONE]${nl}${nl}`
  return out
}
export const sseStyle = () => fc.record({
  nl: fc.constantFrom('\n', '\n', '\r\n'),
  space: fc.boolean(),
  comments: fc.constantFrom(0, 0, 1, 2),
  ids: fc.boolean(),
  events: fc.constantFrom(false, false, false, true, true, 'ping', 'error', 'done', 'delta', 'keepalive', '[DONE]', 'comment', 'close'),
  done: fc.boolean(),
})
// mostly of ordinary size, now and then far beyond it
export const sized = (usual, large, weight = 40) => fc.oneof({ weight, arbitrary: usual }, { weight: 1, arbitrary: large })
export const cutsArb = (max = 12) => fc.array(frac(), { maxLength: max })
export const sseReply = (text, cuts = [], delays = [], extra = {}) => ({
  status: 200,
  headers: { 'content-type': 'text/event-stream' },
  chunks: splitBytes(enc.encode(text), cuts).map((bytes, i) => ({ bytes, delay: delays.length ? delays[i % delays.length] : 0 })),
  ...extra,
})

// ---------------------------------------------------------------- generators
export const word = () => fc.constantFrom('alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta')
const spice = ['', ' ', '\n', '\n\n', '\r\n', 'data: x', '[DONE]', '"', '\\', '{', '}', '[', ']', '😀', 'é', '漢字', 'e\u0301', '\u2028', '\u0000', '<think>', '</think>', '{"a":1}', 'undefined', 'null', ':', 'event: x', '\t', '🇫🇷', '\ufeff']
export const text = (max = 8) => fc.array(fc.oneof(
  { weight: 4, arbitrary: fc.string({ maxLength: 6 }) },
  { weight: 3, arbitrary: fc.constantFrom(...spice) },
  { weight: 2, arbitrary: word() },
  { weight: 1, arbitrary: fc.string({ unit: 'binary', maxLength: 4 }) },
), { maxLength: max }).map(a => a.join(''))
export const text1 = (max = 8) => text(max).map(t => t === '' ? 'x' : t)
export const key = () => fc.oneof(
  fc.constantFrom('a', 'b', 'city', 'nestedKey', 'snake_key', 'type', 'value', 'X', 'camelCaseKey', 'length'),
  fc.string({ maxLength: 5 }),
).filter(k => k !== '__proto__')
export const jsonVal = (depth = 2) => fc.letrec(tie => ({
  v: fc.oneof({ maxDepth: depth, depthIdentifier: 'j', withCrossShrink: true },
    fc.constant(null), fc.boolean(), fc.integer({ min: -1000, max: 1000 }),
    fc.double({ noNaN: true, noDefaultInfinity: true, min: -1e6, max: 1e6 }).map(x => Object.is(x, -0) ? 0 : x),
    text(3),
    fc.array(tie('v'), { maxLength: 4, depthIdentifier: 'j' }),
    fc.dictionary(key(), tie('v'), { maxKeys: 4, depthIdentifier: 'j', noNullPrototype: true })),
})).v
// numbers that JSON writes with an exponent are a recorded finding
export const plain = v => !/\de[+-]?\d/.test(JSON.stringify(v, (_, x) => typeof x === 'string' ? '' : x) ?? '')
// a key that extends an earlier sibling's key is a recorded finding
export const apart = v => v === null || typeof v !== 'object' || (Array.isArray(v) ? v.every(apart) : Object.keys(v).every((k, i, ks) => !ks.slice(0, i).some(p => k.startsWith(p))) && Object.values(v).every(apart))
export const jsonObj = (depth = 2) => fc.dictionary(key(), jsonVal(depth - 1), { maxKeys: 4, noNullPrototype: true })
export const usageArb = () => fc.record({ p: fc.nat({ max: 5000 }), c: fc.nat({ max: 5000 }), extra: fc.nat({ max: 50 }) })
export const wireUsage = u => ({ prompt_tokens: u.p, completion_tokens: u.c, total_tokens: u.p + u.c + u.extra })
export const normUsage = u => ({ inputTokens: u.p, outputTokens: u.c, totalTokens: u.p + u.c + u.extra })

const part = () => fc.oneof(
  text(3).map(t => ({ type: 'text', text: t })),
  fc.constant({ type: 'image_url', image_url: { url: 'https://e.x/i.png', detail: 'low' } }),
  fc.constant({ type: 'file', file: { file_id: 'f1', filename: 'a.txt' } }),
)
export const messagesArb = (max = 4) => fc.array(fc.oneof(
  text(4).map(content => ({ role: 'user', content })),
  fc.array(part(), { maxLength: 3 }).map(content => ({ role: 'user', content })),
  text(3).map(content => ({ role: 'system', content })),
  text(3).map(content => ({ role: 'developer', content, name: 'dev' })),
  fc.tuple(text(3), text(2)).map(([content, reasoning_content]) => ({ role: 'assistant', content, reasoning_content })),
  text(3).map(a => ({ role: 'assistant', tool_calls: [{ id: 'old', type: 'function', function: { name: 'prev', arguments: JSON.stringify({ a }) } }] })),
  text(3).map(content => ({ role: 'tool', content, tool_call_id: 'old' })),
), { minLength: 1, maxLength: max })

export const baseURLArb = () => fc.record({
  proto: fc.constantFrom('http', 'https'),
  host: fc.constantFrom('api.example.com', 'localhost', '127.0.0.1', 'xn--bcher-kva.example'),
  port: fc.constantFrom('', ':8080', ':11434'),
  path: fc.array(fc.constantFrom('v1', 'openai', 'api', 'v1beta', 'a%20b', 'client.v4', 'models'), { maxLength: 4 }),
  slash: fc.boolean(),
  empty: fc.constantFrom(0, 0, 0, 0, 0, 1, 2, 3), // empty path segments: a few after a segment, or after the last slash
  asURL: fc.boolean(),
}).map(({ empty, ...b }) => empty === 0 ? b : empty === 3 ? { ...b, path: [...b.path, '', ''], slash: true } : b.path.length === 0 ? b : { ...b, path: [b.path[0], ...Array(empty).fill(''), ...b.path.slice(1)], slash: true })
export const baseStr = (b) => {
  const s = `${b.proto}://${b.host}${b.port}${b.path.map(p => `/${p}`).join('')}${b.slash ? '/' : ''}`
  return s
}
export const baseVal = b => b.asURL ? new URL(baseStr(b)) : baseStr(b)
// oracle: base path + endpoint path, independent of trailing slashes
export const expectURL = (b, path) => `${b.proto}://${b.host}${b.port}${b.path.map(p => `/${p}`).join('')}/${path}`

export const freshSignal = () => new AbortController()
