import { eq, fc, frac, jsonReply, makeServer, mkThrown, ok, outcome, show, sized, sseReply, sseText, text, text1, thrown } from '../lib/kit.mjs'
import { endpointCase, finalChunks, makeEndpoints, responseEvents } from '../lib/endpoints.mjs'

const status = () => fc.oneof(fc.constantFrom(400, 401, 403, 404, 408, 409, 422, 429, 500, 502, 503, 529, 599, 300, 307), fc.integer({ min: 400, max: 599 }))
const badJSON = () => fc.oneof(fc.constantFrom('', ' ', '{', '<html></html>', '{"a":1', 'undefined', '{"a":1}}', "{'a':1}", '[1,]', 'NaN'), text(3).map(t => `{${t}`)).filter((t) => { try { JSON.parse(t); return false } catch { return true } })
// bodies beyond any small buffer or message limit
const long = () => fc.tuple(text1(4), fc.constantFrom(300, 1500, 5000, 70000)).map(([s, n]) => s.repeat(Math.ceil(n / s.length)))
// what servers and proxies send along with a failure
const extraHeaders = () => fc.dictionary(fc.constantFrom('x-request-id', 'x-ratelimit-remaining', 'set-cookie', 'www-authenticate', 'date', 'cf-ray', 'openai-processing-ms', 'location', 'request-id', 'etag', 'via', 'a'), fc.constantFrom('1', 'abc', 'Bearer realm="x"', 'a=b; Path=/', '0', 'x, y', ''), { maxKeys: 5, noNullPrototype: true })
const good = { generateText: finalChunks(), responses: responseEvents() }

export default ({ lib }) => {
  const S = lib.shared
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const is = (cls, e) => ok(e instanceof Error && e instanceof S.XSAIError && S[cls].isInstance(e) && S.XSAIError.isInstance(e) && e.name === cls, () => `expected ${cls}, got ${show(e, 400)}`)
  const call = async (c, reply) => {
    const ep = by[c.ep]
    const srv = makeServer(() => typeof reply === 'function' ? reply(ep) : reply)
    const o = await outcome(ep.run({ ...ep.options(c.spec), baseURL: 'https://h.example/v1', apiKey: 'k', fetch: srv.fetch }))
    eq(srv.log.length, 1, `${c.ep}: a failed call must not be retried or repeated`)
    ok(!o.ok, () => `${c.ep}: the call reported success: ${show(o.value, 300)}`)
    return o.error
  }
  const chatLike = ['generateText', 'generateObject', 'telemetry.generateText']
  const sseEp = e => e.kind === 'sse'
  // a valid prefix of the endpoint's own event stream
  const prefix = (name, n) => (name.includes('peech') ? [{ type: 'speech.audio.delta', audio: 'AAEC' }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }] : name.includes('ranscription') ? [{ type: 'transcript.text.delta', delta: 'x' }, { type: 'transcript.text.done', text: 'x' }] : name === 'responses' ? good.responses : good.generateText).slice(0, n)
  return {
    rule: 'A case is one client entry point with generated options and one faulty reply: any non-success status with any body and headers, an absent body, malformed JSON, a rejected fetch, no choices, a malformed or error event somewhere in an event stream. Non-trivial: every case (each injects a fault). Oracle: the documented error class with its documented fields; never a success value.',
    subs: [
      {
        name: 'http-status', runs: 3000,
        arb: () => endpointCase(eps, () => true, { status: status(), body: sized(fc.oneof(text(4), fc.constant('{"error":{"message":"bad"}}'), fc.constant('')), long(), 12), more: extraHeaders(), statusText: fc.constantFrom('', 'Too Many Requests', 'Bad'), hdr: fc.constantFrom('7', 'abc'), ctype: fc.constantFrom('application/json', 'text/event-stream', 'text/html') }),
        check: async (c, t) => {
          t.nontrivial(); t.cls(c.ep)
          const body = await new Response(c.body).text() // the platform decides about byte order marks
          const e = await call(c, { status: c.status, statusText: c.statusText, headers: { 'content-type': c.ctype, 'retry-after': c.hdr, ...c.more }, body: c.body })
          is('APICallError', e)
          eq(e.code, 'api_call_error', 'code')
          eq(e.statusCode, c.status, 'statusCode')
          eq(e.statusText, c.statusText, 'statusText')
          eq(e.responseBody, body, 'responseBody')
          eq(e.responseHeaders, { 'content-type': c.ctype, 'retry-after': c.hdr, ...c.more }, 'responseHeaders')
          ok(e.response instanceof Response && e.response.status === c.status, 'response')
          ok(e.message.includes(String(c.status)) && e.message.includes(body), `message must carry status and body: ${e.message}`)
        },
      },
      {
        name: 'no-body', runs: 400,
        arb: () => endpointCase(eps, () => true, { status: fc.constantFrom(200, 204, 201, 205) }),
        check: async (c, t) => {
          t.nontrivial()
          const e = await call(c, { status: c.status, body: null })
          is('InvalidResponseError', e)
          eq([e.code, e.reason], ['invalid_response', 'empty_body'], 'code and reason')
          ok(e.response instanceof Response, 'response')
        },
      },
      {
        name: 'bad-json', runs: 1200,
        arb: () => endpointCase(eps, e => e.kind === 'json', { body: sized(badJSON(), long().map(s => `{"a":${JSON.stringify(s)},}`), 12) }),
        check: async (c, t) => {
          t.nontrivial()
          const e = await call(c, { status: 200, body: c.body })
          is('JSONParseError', e)
          eq([e.code, e.text], ['json_parse_error', new TextDecoder().decode(new TextEncoder().encode(c.body))], 'code and text')
          ok(e.cause instanceof Error && e.cause.name === 'SyntaxError', 'cause must be the original parse error')
        },
      },
      {
        name: 'network', runs: 600,
        arb: () => endpointCase(eps, () => true, { latency: fc.constantFrom(0, 5), kind: thrown() }),
        check: async (c, t) => {
          t.nontrivial()
          const err = mkThrown(c.kind)
          const e = await call(c, { reject: err, latency: c.latency })
          ok(e === err, () => `${c.ep}: the transport error must reach the caller unchanged, got ${show(e)}`)
        },
      },
      {
        name: 'no-choices', runs: 300,
        arb: () => endpointCase(eps, e => chatLike.includes(e.name), { reply: fc.constantFrom({ choices: [] }, {}, { choices: null }, { error: { message: 'x' } }, { choices: [], usage: { prompt_tokens: 1, completion_tokens: 0, total_tokens: 1 } }, { id: 'x', choices: undefined, usage: null }) }),
        check: async (c, t) => {
          t.nontrivial()
          const e = await call(c, jsonReply(c.reply))
          is('InvalidResponseError', e)
          eq([e.code, e.reason, JSON.parse(e.responseBody)], ['invalid_response', 'no_choices', JSON.parse(JSON.stringify(c.reply))], 'code, reason and responseBody')
        },
      },
      {
        name: 'stream-event', runs: 1500,
        arb: () => endpointCase(eps, sseEp, { n: fc.nat({ max: 4 }), cuts: fc.array(frac(), { maxLength: 5 }), bad: fc.oneof(fc.constantFrom('{', '{"choices":[', 'oops', '[DONE', '<html>', `{"choices":[{"delta":{"content":"${'long '.repeat(1200)}`), fc.tuple(fc.oneof(text(2), fc.constant({ message: 'quota', code: 'insufficient_quota' }), fc.constant({ code: 500 })), fc.constantFrom({}, {}, { type: 'error' }, { choices: [] }, { choices: [{ index: 0, delta: { content: '' }, finish_reason: 'error' }] }, { id: 'x', object: 'chat.completion.chunk', provider: 'p' }, { code: 429, message: 'm' }, { type: 'response.failed', sequence_number: 3 })).map(([error, more]) => ({ ...more, error }))), trailing: fc.boolean() }),
        check: async (c, t) => {
          t.nontrivial(); t.cls(typeof c.bad === 'string' ? 'malformed' : 'error-event')
          const pre = prefix(c.ep, c.n)
          const wire = sseText([...pre, c.bad, ...(c.trailing ? pre : [])], {})
          const e = await call(c, sseReply(wire, c.cuts))
          if (typeof c.bad === 'string') {
            is('JSONParseError', e)
            eq([e.code, e.text], ['json_parse_error', c.bad], 'code and text')
          }
          else {
            is('RemoteAPIError', e)
            eq([e.code, JSON.parse(e.responseBody)], ['remote_api_error', JSON.parse(JSON.stringify(c.bad))], 'code and responseBody')
          }
        },
      },
      {
        name: 'body-break', runs: 600,
        arb: () => endpointCase(eps, () => true, { at: fc.nat({ max: 4 }), delay: fc.constantFrom(0, 3) }),
        check: async (c, t) => {
          t.nontrivial()
          const err = new TypeError('terminated')
          const e = await call(c, (ep) => {
            const r = ep.reply(c.spec)
            // before the body, within it, or after all of it
            const all = r.chunks ?? [{ bytes: r.body }]
            const chunks = c.at === 4 ? all : all.slice(0, c.at === 0 ? 0 : 1).map(x => ({ bytes: x.bytes.slice(0, 5) }))
            return { ...r, body: undefined, chunks: [...chunks, { error: err, delay: c.delay }] }
          })
          ok(e === err, () => `${c.ep}: a connection that breaks mid-body must surface its error, got ${show(e, 300)}`)
        },
      },
    ],
  }
}
