import { collect, deepFreeze, eq, fc, json, jsonVal, key, ok, outcome, same, show, text, text1 } from '../lib/kit.mjs'

// an independent reading of "one underscore and a small letter per capital letter"
const snake = s => Array.from(s, ch => ch >= 'A' && ch <= 'Z' ? `_${ch.toLowerCase()}` : ch).join('')
const anyKey = () => fc.oneof(key(), fc.constantFrom('aB', 'maxTokens', 'URL', 'topP', 'a_b', 'äÖ', '9A', 'constructor', 'toString', 'hasOwnProperty', ''))
const entries = () => fc.uniqueArray(fc.tuple(anyKey(), fc.oneof({ weight: 3, arbitrary: jsonVal(2) }, { weight: 2, arbitrary: fc.constantFrom(undefined, null, 0, '', false, Number.NaN, Symbol.iterator, Array.from) })), { maxLength: 8, selector: e => e[0] })
const hname = () => fc.constantFrom('Authorization', 'authorization', 'AUTHORIZATION', 'Content-Type', 'content-type', 'X-A', 'x-a', 'x-b')
const caught = (f) => { try { return { ok: true, value: f() } } catch (error) { return { ok: false, error } } }

export default ({ lib }) => {
  const S = lib.shared
  const SS = lib.sharedStream
  const CLASSES = {
    APICallError: { code: 'api_call_error', opts: r => ({ response: new Response('b', { status: r.status, statusText: r.t, headers: { 'x-a': '1' } }), responseBody: r.t, requestBody: r.u }), read: r => ({ statusCode: r.status, statusText: r.t, responseBody: r.t, requestBody: r.u }) },
    InvalidResponseError: { code: 'invalid_response', opts: r => ({ reason: 'no_choices', responseBody: r.t, contentType: r.u }), read: r => ({ reason: 'no_choices', responseBody: r.t, contentType: r.u }) },
    InvalidToolCallError: { code: 'invalid_tool_call', opts: r => ({ reason: 'unknown_tool', toolCall: r.v, toolName: r.t, availableTools: [r.u] }), read: r => ({ reason: 'unknown_tool', toolCall: r.v, toolName: r.t, availableTools: [r.u] }) },
    InvalidToolInputError: { code: 'invalid_tool_input', opts: r => ({ toolInput: r.v, toolName: r.t }), read: r => ({ toolInput: r.v, toolName: r.t }) },
    JSONParseError: { code: 'json_parse_error', opts: r => ({ text: r.t }), read: r => ({ text: r.t }) },
    RemoteAPIError: { code: 'remote_api_error', opts: r => ({ responseBody: r.t }), read: r => ({ responseBody: r.t }) },
    ToolExecutionError: { code: 'tool_execution_error', opts: r => ({ toolInput: r.v, toolName: r.t, toolCallId: r.u }), read: r => ({ toolInput: r.v, toolName: r.t, toolCallId: r.u }) },
  }
  return {
    rule: 'A case is one use of an exported helper with generated input: objects with absent, null and falsy values; base URLs and header collections; replies good and bad; chains of continuations of up to 30000 links; server-sent messages with custom markers, parsers and error tests; sets of controlled streams, some cancelled; errors of every class. Non-trivial: the input exercises the helper\'s job (something to drop, rename, overlay, fail, continue, cancel). Oracle: an independent model of each helper.',
    assumptions: ['header values are valid', 'base URLs without a query'],
    subs: [
      {
        name: 'objects', runs: 2000,
        arb: () => fc.record({ list: entries(), nil: fc.boolean() }),
        check: ({ list }, t) => {
          const o = Object.fromEntries(list)
          deepFreeze(o)
          t.nontrivial(list.some(([k, v]) => v === undefined || k !== snake(k)))
          const c = S.clean(o)
          ok(c !== o, 'clean must not hand out its argument')
          eq(Object.keys(c).sort(), list.filter(([, v]) => v !== undefined).map(([k]) => k).sort(), 'keys kept by clean')
          for (const k of Object.keys(c)) ok(Object.is(c[k], o[k]), () => `clean changed ${k}`)
          for (const [k] of list) eq(S.strCamelToSnake(k), snake(k), `name of ${k}`)
          const n = S.objCamelToSnake(o)
          const want = new Map()
          for (const [k, v] of Object.entries(o)) want.set(snake(k), v) // two names that meet: the later one
          eq(Object.keys(n).sort(), [...want.keys()].sort(), 'renamed keys')
          for (const [k, v] of want) ok(Object.is(n[k], v), () => `objCamelToSnake changed the value of ${k}`)
          // the body: what is the transport's own stays out
          const own = { abortSignal: new AbortController().signal, apiKey: 'secret', baseURL: 'https://x.example', fetch: () => {}, headers: { a: '1' } }
          const body = JSON.parse(S.requestBody({ ...own, ...o }))
          const wire = new Map()
          for (const [k, v] of Object.entries(o)) if (v !== undefined && !Object.hasOwn(own, k)) wire.set(snake(k), v)
          eq(body, json(Object.fromEntries(wire)), 'request body')
        },
      },
      {
        name: 'addresses', runs: 1200,
        arb: () => fc.record({ origin: fc.constantFrom('https://h.example', 'http://localhost:11434', 'https://h.example:8443'), dirs: fc.array(fc.constantFrom('v1', 'api', 'openai', 'ü', 'a b', 'v1beta'), { maxLength: 3 }), slash: fc.boolean(), asURL: fc.boolean(), path: fc.constantFrom('chat/completions', 'models', 'models/gpt-4o', 'audio/speech', 'models/org/m:free') }),
        check: ({ origin, dirs, slash, asURL, path }, t) => {
          t.nontrivial(dirs.length > 0)
          if (path.includes(':')) path = path.replace(':', '%3A')
          const base = `${origin}/${dirs.join('/')}${dirs.length && slash ? '/' : ''}`
          const u = S.requestURL(path, asURL ? new URL(base) : dirs.length === 0 && !slash ? origin : base)
          eq(String(u), `${origin}/${[...dirs.map(encodeURIComponent), path].join('/')}`, 'address')
        },
      },
      {
        name: 'headers', runs: 2000,
        arb: () => fc.record({ form: fc.constantFrom('none', 'record', 'Headers'), list: fc.uniqueArray(fc.tuple(hname(), fc.constantFrom('1', 'two', 'Basic x', '')), { maxLength: 4, selector: e => e[0].toLowerCase() }), apiKey: fc.constantFrom(undefined, '', 'k'), defaults: fc.constantFrom(undefined, {}, { 'Content-Type': 'application/json' }, { 'content-type': 'a/b', 'X-B': 'z' }) }),
        check: ({ form, list, apiKey, defaults }, t) => {
          const rec = Object.fromEntries(list)
          const h = form === 'none' ? undefined : form === 'record' ? deepFreeze(rec) : new Headers(rec)
          t.nontrivial(form !== 'none' && list.some(([n]) => /^(auth|content)/i.test(n))); t.cls(form)
          const got = S.requestHeaders(h, apiKey, defaults && deepFreeze({ ...defaults }))
          const want = new Map()
          if (apiKey !== undefined) want.set('authorization', `Bearer ${apiKey}`)
          for (const [n, v] of Object.entries(defaults ?? {})) want.set(n.toLowerCase(), v)
          if (form !== 'none') for (const [n, v] of list) want.set(n.toLowerCase(), v)
          eq(Object.keys(got).map(n => n.toLowerCase()).sort(), [...want.keys()].sort(), 'header names, each once')
          for (const [n, v] of Object.entries(got)) eq(v, want.get(n.toLowerCase()), `header ${n}`)
          if (form === 'record') eq(Object.fromEntries(list), rec, 'the caller\'s record')
        },
      },
      {
        name: 'replies', runs: 1500,
        arb: () => fc.record({ status: fc.constantFrom(200, 201, 299, 300, 400, 401, 404, 429, 500, 503, 599), body: fc.oneof(jsonVal(2).map(v => JSON.stringify(v)), text(3), fc.constant(null), fc.constant('')), st: fc.constantFrom('', 'Odd') }),
        check: async ({ status, body, st }, t) => {
          const mk = () => new Response(body, { status, statusText: st, headers: { 'x-req': 'r1', 'content-type': 'text/plain' } })
          const plain = body === null ? '' : await new Response(body).text()
          t.nontrivial(status >= 300 || body === null)
          const res = mk()
          const r = await outcome(S.responseCatch(res))
          if (status >= 300) {
            ok(!r.ok && S.APICallError.isInstance(r.error) && !S.RemoteAPIError.isInstance(r.error), () => `status ${status} gave ${show(r)}`)
            eq({ c: r.error.code, s: r.error.statusCode, t: r.error.statusText, b: r.error.responseBody, h: r.error.responseHeaders['x-req'], u: r.error.url, same: r.error.response === res }, { c: 'api_call_error', s: status, t: st, b: plain, h: 'r1', u: res.url, same: true }, 'error')
            ok(r.error.message.includes(String(status)), () => `message ${r.error.message}`)
          }
          else if (body === null) { ok(!r.ok && S.InvalidResponseError.isInstance(r.error) && r.error.reason === 'empty_body', () => `absent body gave ${show(r)}`) }
          else {
            ok(r.ok && r.value === res && !res.bodyUsed, () => `a good reply must come back itself, unread: ${show(r)}`)
          }
          const j = await outcome(S.responseJSON(mk()))
          const want = caught(() => JSON.parse(plain))
          eq(j.ok, want.ok, 'parses')
          if (want.ok) eq(j.value, want.value, 'value')
          else ok(S.JSONParseError.isInstance(j.error) && j.error.text === plain && j.error.cause instanceof SyntaxError, () => `unparsable reply gave ${show(j.error)}`)
        },
      },
      {
        name: 'continuations', runs: 250,
        arb: () => fc.record({ n: fc.oneof({ weight: 3, arbitrary: fc.nat({ max: 40 }) }, { weight: 1, arbitrary: fc.integer({ min: 12000, max: 30000 }) }), every: fc.integer({ min: 1, max: 4 }), end: fc.constantFrom('value', 'throw', 'reject', 'undefined') }),
        check: async ({ n, every, end }, t) => {
          t.nontrivial(n > 1); t.cls(n > 1000 && 'long', end)
          const boom = new Error('BOOM')
          let ran = 0
          let live = 0
          let most = 0
          const step = i => () => {
            ran++
            if (i < n) return i % every === 0 ? step(i + 1) : (async () => { live++; most = Math.max(most, live); await null; live--; return step(i + 1) })()
            if (end === 'throw') throw boom
            if (end === 'reject') return Promise.reject(boom)
            return end === 'value' ? { done: n } : undefined
          }
          const r = await outcome((async () => S.trampoline(step(0)))())
          eq(ran, n + 1, 'links that ran, each once')
          ok(most <= 1, () => `${most} links at once`)
          if (end === 'throw' || end === 'reject') ok(!r.ok && r.error === boom, () => `gave ${show(r)}`)
          else eq(r, { ok: true, value: end === 'value' ? { done: n } : undefined }, 'result')
        },
      },
      {
        name: 'messages', runs: 2500,
        arb: () => fc.record({
          list: fc.array(fc.oneof({ weight: 5, arbitrary: jsonVal(2).map(v => JSON.stringify(v)) }, { weight: 2, arbitrary: fc.constantFrom('', '[DONE]', 'END', '[DONE] ', '"[DONE]"', '{"error":null}', '{"error":{"message":"x"}}', '{"choices":[],"error":"x"}', '[{"error":1}]', '{"a":{"error":1}}', '{oops', 'null', '{"code":429}') }), { maxLength: 6 }),
          marker: fc.constantFrom(undefined, 'END', ''), test: fc.constantFrom(undefined, 'code', 'never', 'always'), parse: fc.constantFrom(undefined, 'wrap', 'throws'),
        }),
        check: async ({ list, marker, test, parse }, t) => {
          const boom = new Error('parser')
          const options = {}
          if (marker !== undefined) options.doneMarker = marker
          if (test) options.isErrorResponse = { code: p => p?.code !== undefined, never: () => false, always: () => true }[test]
          if (parse) options.parse = parse === 'wrap' ? s => ({ got: s }) : () => { throw boom }
          // model
          const one = (data) => {
            if (data === '' || data === (marker ?? '[DONE]')) return { skip: true }
            let v
            if (parse === 'throws') return { bad: 'JSONParseError', text: data, cause: boom }
            if (parse === 'wrap') v = { got: data }
            else { try { v = JSON.parse(data) } catch { return { bad: 'JSONParseError', text: data } } }
            const err = test === 'code' ? v !== null && v?.code !== undefined : test === 'never' ? false : test === 'always' ? true : v !== null && typeof v === 'object' && 'error' in v
            return err ? { bad: 'RemoteAPIError', responseBody: data } : { v }
          }
          const check = (w, r) => {
            if (w.bad) {
              ok(!r.ok && S[w.bad].isInstance(r.error), () => `${show(w)}: gave ${show(r)}`)
              if (w.text !== undefined) eq(r.error.text, w.text, 'text of the error')
              if (w.responseBody !== undefined) eq(r.error.responseBody, w.responseBody, 'body of the error')
              if (w.cause) ok(r.error.cause === w.cause, 'cause of the error')
            }
            else { eq(r, { ok: true, value: w.skip ? undefined : w.v }, 'message') }
          }
          const model = list.map(one)
          t.nontrivial(model.some(w => w.skip || w.bad)); t.cls(test, parse, marker === undefined ? undefined : 'marker')
          list.forEach((data, i) => check(model[i], caught(() => Object.keys(options).length ? SS.parseJsonSSEMessage({ data, event: undefined, id: '' }, options) : SS.parseJsonSSEMessage({ data, event: 'message', id: '7' }))))
          const src = new ReadableStream({ start(c) { for (const data of list) c.enqueue({ data, event: undefined, id: undefined }); c.close() } })
          const r = await collect(src.pipeThrough(Object.keys(options).length ? new SS.JsonMessageTransformStream(options) : new SS.JsonMessageTransformStream()))
          const stop = model.findIndex(w => w.bad)
          const want = (stop === -1 ? model : model.slice(0, stop)).filter(w => !w.skip && w.v != null).map(w => w.v)
          if (stop === -1) { eq(r.end, 'closed', 'end'); eq(r.chunks, want, 'messages') }
          else {
            eq(r.end, 'errored', 'end')
            check(model[stop], { ok: false, error: r.error })
            eq(r.chunks, want.slice(0, r.chunks.length), 'messages before the error')
          }
        },
      },
      {
        name: 'controllers', runs: 1500,
        arb: () => fc.record({ n: fc.integer({ min: 1, max: 5 }), ops: fc.array(fc.record({ i: fc.nat({ max: 4 }), v: fc.nat({ max: 99 }), cancel: fc.integer({ min: 0, max: 9 }) }), { maxLength: 14 }), end: fc.constantFrom('close', 'error', 'twice', 'errorThenClose') }),
        check: async ({ n, ops, end }, t) => {
          const all = Array.from({ length: n }, () => SS.createControlledStream())
          const want = all.map(() => [])
          const gone = new Set()
          for (const { i, v, cancel } of ops) {
            const k = i % n
            if (cancel === 0) { if (!gone.has(k)) await all[k][0].cancel('enough'); gone.add(k); want[k] = []; continue }
            all[k][1].current?.enqueue(v)
            if (!gone.has(k)) want[k].push(v)
          }
          t.nontrivial(gone.size > 0 || end !== 'close'); t.cls(end, gone.size > 0 && 'cancelled')
          const boom = new Error('BOOM')
          const ctrls = all.map(x => x[1])
          if (end === 'error' || end === 'errorThenClose') SS.errorControllers(boom, ...ctrls)
          else SS.closeControllers(...ctrls)
          if (end === 'twice') { SS.closeControllers(...ctrls); SS.errorControllers(boom, ...ctrls) }
          if (end === 'errorThenClose') SS.closeControllers(...ctrls)
          const bad = end === 'error' || end === 'errorThenClose'
          for (const [k, [stream]] of all.entries()) {
            ok(ctrls[k].current === undefined, () => `stream ${k} can still be written to`)
            const r = await collect(stream)
            if (gone.has(k)) { eq([r.end, r.chunks], ['closed', []], `cancelled stream ${k}`); continue }
            if (bad) { ok(r.end === 'errored' && r.error === boom, () => `stream ${k} ended ${show(r)}`) }
            else { eq([r.end, r.chunks], ['closed', want[k]], `stream ${k}`) }
          }
        },
      },
      {
        name: 'errors', runs: 1200,
        arb: () => fc.record({ cls: fc.constantFrom(...Object.keys(CLASSES)), message: text(3), status: fc.constantFrom(400, 404, 500), t: fc.constantFrom('', 'a', 'Not Found'), u: text1(2), v: jsonVal(2), cause: fc.constantFrom('none', 'error', 'string', 'zero'), sub: fc.boolean() }),
        check: ({ cls, message, cause, sub, ...r }, t) => {
          t.nontrivial(); t.cls(cls, sub && 'subclass')
          const Base = S[cls]
          const Sub = class MyError extends Base {}
          const Other = class OtherError extends Base {}
          const C = sub ? Sub : Base
          const why = { error: new TypeError('inner'), string: 'why', zero: 0 }[cause]
          const e = new C(message, { ...CLASSES[cls].opts(r), ...(cause === 'none' ? {} : { cause: why }) })
          eq({ code: e.code, name: e.name, message: e.message }, { code: CLASSES[cls].code, name: sub ? 'MyError' : cls, message }, 'error')
          ok(e.cause === why, () => `cause ${show(e.cause)}`)
          ok(e instanceof Error && typeof e.stack === 'string', 'a real Error')
          for (const [k, v] of Object.entries(CLASSES[cls].read(r))) ok(same(e[k], v), () => `${k} is ${show(e[k])}, not ${show(v)}`)
          // guards: exactly the class, its ancestors, and what derives from it
          for (const k of Object.keys(CLASSES)) eq(S[k].isInstance(e), k === cls, `${k}.isInstance of a ${cls}`)
          eq([S.XSAIError.isInstance(e), Sub.isInstance(e), Other.isInstance(e)], [true, sub, false], 'guards of ancestors and subclasses')
          for (const x of [undefined, null, 0, 'api_call_error', {}, new Error(message), { ...e }, { name: cls, code: CLASSES[cls].code, message }]) eq([Base.isInstance(x), S.XSAIError.isInstance(x)], [false, false], `guards of ${show(x)}`)
        },
      },
    ],
  }
}
