import { collect, cutsArb, dec, enc, eq, fc, jsonVal, makeServer, mkThrown, ok, outcome, show, splitBytes, sseStyle, sseText, text, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'

const audio = () => fc.array(fc.oneof({ weight: 5, arbitrary: fc.uint8Array({ maxLength: 24 }) }, { weight: 1, arbitrary: fc.integer({ min: 1000, max: 9000 }).map(n => Uint8Array.from({ length: n }, (_, i) => (i * 31 + n) % 256)) }), { maxLength: 8 })
const usage = () => fc.option(fc.record({ input_tokens: fc.nat({ max: 999 }), output_tokens: fc.nat({ max: 999 }), total_tokens: fc.nat({ max: 2000 }) }), { nil: null, freq: 4 })
const norm = u => u === null ? undefined : { inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens }
const b64 = u => Buffer.from(u).toString('base64')
const concat = chunks => Buffer.concat(chunks.map(c => Buffer.from(c)))
const FAULTS = ['break', 'malformed', 'errorEvent', 'badAudio', 'cancel', 'abort']

export default ({ lib }) => {
  const X = lib.xsai
  const opts = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', input: 'say', voice: 'alloy' }
  const events = ({ list, noise, bare }) => list.flatMap((u, i) => [...(noise && i % 2 === 0 ? [{ type: 'speech.audio.info', note: i }] : []), { type: 'speech.audio.delta', audio: bare ? b64(u).replace(/=+$/, '') : b64(u) }])
  const doneEvent = (u, closing) => closing ? [{ type: 'speech.audio.done', ...(u === null ? {} : { usage: u }) }] : []
  return {
    rule: 'A case is generated audio (empty, small and large pieces, every byte value) sent as one binary reply or as server-sent audio events in a generated SSE style cut at generated byte positions, read fully, slowly or cancelled, or broken by one of six faults at a generated event. Non-trivial: at least two pieces, or a fault. Oracle: the generated bytes and usage; after a fault all outputs settle, the bytes so far are a prefix and the error is that fault.',
    assumptions: ['usage is awaited while or after the audio is read'],
    subs: [
      {
        name: 'whole', runs: 800,
        arb: () => fc.record({ list: audio(), cuts: cutsArb(6), delay: fc.constantFrom(0, 3), type: fc.constantFrom('audio/mpeg', 'application/octet-stream', 'application/json', undefined) }),
        check: async ({ list, cuts, delay, type }, t) => {
          const bytes = concat(list)
          t.nontrivial(bytes.length > 1)
          const srv = makeServer(() => ({ headers: type ? { 'content-type': type } : {}, chunks: splitBytes(new Uint8Array(bytes), cuts).map(b => ({ bytes: b, delay })) }))
          const r = await outcome(X.generateSpeech({ ...opts, fetch: srv.fetch }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          ok(r.value instanceof ArrayBuffer, 'an ArrayBuffer')
          ok(Buffer.from(r.value).equals(bytes), () => `speech bytes changed: ${show(Buffer.from(r.value))} instead of ${show(bytes)}`)
        },
      },
      {
        name: 'streamed', runs: 1500,
        arb: () => fc.record({ list: audio(), u: usage(), noise: fc.boolean(), closing: fc.constantFrom(true, true, true, false), style: sseStyle(), cuts: cutsArb(16), delay: fc.constantFrom(0, 0, 2), slow: fc.constantFrom(0, 0, 5), bare: fc.constantFrom(false, false, false, true), early: fc.boolean() }),
        check: async ({ list, u, noise, closing, style, cuts, delay, slow, bare, early }, t) => {
          t.nontrivial(list.length > 1); t.cls(u === null || !closing ? 'no-usage' : 'usage', slow && 'slow-reader')
          const all = [...events({ list, noise, bare }), ...doneEvent(u, closing)]
          const srv = makeServer(() => ({ headers: { 'content-type': 'text/event-stream' }, chunks: splitBytes(enc.encode(sseText(all, style)), cuts).map(b => ({ bytes: b, delay })) }))
          const s = await X.streamSpeech({ ...opts, fetch: srv.fetch })
          const first = early ? outcome(s.usage) : undefined
          const got = await collect(s.fullStream, { onChunk: slow ? () => env.sleep(slow) : undefined })
          ok(got.end === 'closed', () => `the stream ended ${got.end}: ${show(got.error)}`)
          for (const c of got.chunks) ok(c instanceof Uint8Array, () => `a piece is ${show(c)}`)
          ok(concat(got.chunks).equals(concat(list)), () => `audio changed: ${concat(got.chunks).length} bytes instead of ${concat(list).length}`)
          const use = await (first ?? outcome(s.usage))
          eq(use, { ok: true, value: closing ? norm(u) : undefined }, 'usage')
          eq(srv.log.map(x => x.json.stream_format), ['sse'], 'requests')
        },
      },
      {
        name: 'faulty', runs: 1800,
        arb: () => fc.record({ list: audio().filter(l => l.length > 0), u: usage(), noise: fc.boolean(), fault: fc.constantFrom(...FAULTS), pos: fc.nat({ max: 12 }), afterDone: fc.boolean(), gap: fc.constantFrom(0, 2), cancelAfter: fc.integer({ min: 1, max: 4 }), reason: fc.constantFrom('why', undefined), what: thrown() }),
        check: async ({ list, u, noise, fault, pos, afterDone, gap, cancelAfter, reason, what }, t) => {
          t.nontrivial(); t.cls(fault)
          const ev = events({ list, noise })
          const good = afterDone ? [...ev, ...doneEvent(u, true)] : ev.slice(0, pos % (ev.length + 1))
          const boom = mkThrown(what)
          const ctl = new AbortController()
          const chunks = good.map(e => ({ bytes: `data: ${JSON.stringify(e)}\n\n`, delay: gap }))
          let is = e => e === (fault === 'abort' ? ctl.signal.reason : boom)
          if (fault === 'break') chunks.push({ error: boom, delay: 1 })
          if (fault === 'malformed') { chunks.push({ bytes: 'data: {"type":\n\n' }); is = e => lib.shared.JSONParseError.isInstance(e) }
          if (fault === 'errorEvent') { chunks.push({ bytes: 'data: {"error":{"message":"x"}}\n\n' }); is = e => lib.shared.RemoteAPIError.isInstance(e) }
          if (fault === 'badAudio') { chunks.push({ bytes: 'data: {"type":"speech.audio.delta","audio":"*not base64*"}\n\n' }); is = e => e instanceof Error }
          if (fault === 'abort') chunks.push({ bytes: ': wait\n\n', delay: 1000 })
          if (fault === 'cancel') chunks.push({ bytes: 'data: [DONE]\n\n', delay: 50 })
          const srv = makeServer(() => ({ headers: { 'content-type': 'text/event-stream' }, chunks }))
          const s = await X.streamSpeech({ ...opts, fetch: srv.fetch, abortSignal: ctl.signal })
          if (fault === 'abort') env.at(gap * good.length + 20, () => ctl.abort(boom))
          const pieces = good.filter(e => e.type === 'speech.audio.delta').length
          const [got, use] = await Promise.all([
            fault === 'cancel' ? collect(s.fullStream, { cancelAfter: Math.min(cancelAfter, pieces) || undefined, reason }) : collect(s.fullStream),
            outcome(s.usage),
          ])
          const bytes = concat(got.chunks)
          const whole = concat(good.filter(e => e.type === 'speech.audio.delta').map(e => Buffer.from(e.audio, 'base64')))
          ok(whole.subarray(0, bytes.length).equals(bytes), 'the audio before the fault is not a prefix')
          if (fault === 'cancel') {
            if (pieces === 0) ok(got.end === 'closed', 'an empty stream closes')
            // a usage that had not arrived may be reported as missing or as the cancellation
            if (use.ok && use.value !== undefined) eq(use.value, norm(afterDone ? u : null), 'usage after a cancellation')
            return
          }
          ok(got.end === 'errored' && is(got.error), () => `the stream ended ${got.end}: ${show(got.error)}`)
          if (afterDone && u !== null) eq(use, { ok: true, value: norm(u) }, 'usage that arrived before the fault')
          else ok(!use.ok && is(use.error), () => `usage settled as ${show(use)}`)
        },
      },
    ],
  }
}
