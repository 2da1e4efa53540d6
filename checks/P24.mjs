import { collect, cutsArb, enc, eq, fc, jsonReply, jsonVal, makeServer, mkThrown, ok, outcome, show, splitBytes, sseStyle, sseText, sized, text, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'

const num = () => fc.double({ min: -50, max: 5000, noNaN: true }).map(x => Object.is(x, -0) ? 0 : x)
const segment = () => fc.record({ id: fc.nat(), seek: fc.nat(), start: num(), end: num(), text: text(3), tokens: fc.array(fc.nat({ max: 60000 }), { maxLength: 4 }), temperature: num(), avg_logprob: num(), compression_ratio: num(), no_speech_prob: num() })
const wordArb = () => fc.record({ word: text(2), start: num(), end: num() })
const FAULTS = ['status', 'reject', 'empty', 'break', 'malformed', 'errorEvent', 'abort']
const file = () => fc.record({ bytes: fc.uint8Array({ maxLength: 40 }), name: fc.constantFrom('a.mp3', 'ü.wav', ''), type: fc.constantFrom('audio/mpeg', '') })
const mk = f => f.name ? new File([f.bytes], f.name, { type: f.type }) : new Blob([f.bytes], { type: f.type })
const bytesOf = async f => Buffer.from(await f.arrayBuffer())

export default ({ lib }) => {
  const X = lib.xsai
  const opts = f => ({ baseURL: 'https://h.example/v1', apiKey: 'k', model: 'whisper-1', file: mk(f) })
  const events = ({ deltas, noise, done, extra }) => [
    ...deltas.flatMap((delta, i) => [...(noise && i % 2 === 0 ? [{ type: 'transcript.text.segment', text: 'seg', id: `s${i}` }] : []), { type: 'transcript.text.delta', delta, ...(extra && i % 2 ? { logprobs: [{ token: delta, logprob: -0.1 }] } : {}) }]),
    ...(done ? [{ type: 'transcript.text.done', text: done === 'differs' ? ` ${deltas.join(' ')}.` : done === 'blank' ? '' : deltas.join(''), usage: { type: 'tokens', input_tokens: 1, output_tokens: 1, total_tokens: 2 } }] : []),
  ]
  const deltasOf = ev => ev.filter(e => e.type === 'transcript.text.delta')
  return {
    rule: 'A case is a generated transcription reply (plain or verbose, with words or segments and unknown fields) for a generated file and options; or a generated sequence of transcript events in a generated SSE style cut at generated byte positions, read eagerly, slowly, late or only in part, complete or broken by one of seven faults. Non-trivial: verbose or non-empty text / at least two deltas / a fault. Oracle: the generated reply and deltas; after a fault every output settles with that fault and the text so far is a prefix.',
    assumptions: ['the transcript of a stream is the concatenation of its deltas'],
    subs: [
      {
        name: 'whole', runs: 1000,
        arb: () => fc.record({
          f: file(), t: sized(text(5), text(40).map(s => `${s} long`.repeat(3000))), verbose: fc.boolean(), gran: fc.constantFrom(undefined, 'segment', 'word'), segs: fc.array(segment(), { maxLength: 3 }), words: fc.array(wordArb(), { maxLength: 4 }), lang: fc.constantFrom('english', '', '漢'), dur: num(),
          extra: fc.option(jsonVal(2), { nil: undefined }), cuts: cutsArb(5),
        }),
        check: async ({ f, t: txt, verbose, gran, segs, words, lang, dur, extra, cuts }, t) => {
          t.nontrivial(verbose || txt !== ''); t.cls(verbose ? `verbose-${gran}` : 'json')
          const reply = { ...(verbose ? { task: 'transcribe', language: lang, duration: dur, ...(gran === 'word' ? { words } : { segments: segs }) } : {}), text: txt, ...(extra !== undefined ? { usage: extra } : {}) }
          const srv = makeServer(() => ({ headers: { 'content-type': 'application/json' }, chunks: splitBytes(enc.encode(JSON.stringify(reply)), cuts).map(bytes => ({ bytes })) }))
          const o = opts(f)
          const r = await outcome(X.generateTranscription({ ...o, fetch: srv.fetch, ...(verbose ? { responseFormat: 'verbose_json', timestampGranularities: gran } : {}) }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value, reply, 'transcription')
          const form = Object.fromEntries(srv.log[0].form)
          eq({ ...form, file: undefined }, { model: 'whisper-1', response_format: verbose ? 'verbose_json' : 'json', ...(verbose ? { 'timestamp_granularities[]': gran ?? 'segment' } : {}) }, 'form fields')
          ok((await bytesOf(form.file)).equals(Buffer.from(f.bytes)) && form.file.type === f.type, 'the uploaded file is the given one')
        },
      },
      {
        name: 'streamed', runs: 1500,
        arb: () => fc.record({ f: file(), deltas: sized(fc.array(text(2), { maxLength: 8 }), fc.array(text(80), { minLength: 40, maxLength: 200 })), noise: fc.boolean(), done: fc.constantFrom(true, true, false, 'differs', 'blank'), extra: fc.boolean(), style: sseStyle(), cuts: cutsArb(16), delay: fc.constantFrom(0, 0, 2), pattern: fc.constantFrom('together', 'slow', 'text-late', 'full-late', 'skip-full', 'skip-text', 'cancel-full', 'cancel-text', 'promise-only'), after: fc.integer({ min: 1, max: 4 }) }),
        check: async ({ f, deltas, noise, done, extra, style, cuts, delay, pattern, after }, t) => {
          t.nontrivial(deltas.length > 1); t.cls(pattern)
          const ev = events({ deltas, noise, done, extra })
          const srv = makeServer(() => ({ headers: { 'content-type': 'text/event-stream' }, chunks: splitBytes(enc.encode(sseText(ev, style)), cuts).map(bytes => ({ bytes, delay })) }))
          const s = X.streamTranscription({ ...opts(f), fetch: srv.fetch })
          const slow = pattern === 'slow' ? { onChunk: () => env.sleep(4) } : {}
          const read = (st, me) => pattern === `skip-${me}` || pattern === 'promise-only' ? undefined
            : pattern === `${me}-late` ? env.sleep(100).then(() => collect(st))
              : collect(st, pattern === `cancel-${me}` ? { cancelAfter: after } : slow)
          const [full, txt, whole] = await Promise.all([read(s.fullStream, 'full'), read(s.textStream, 'text'), outcome(s.text)])
          eq(whole, { ok: true, value: deltas.join('') }, 'text')
          if (full) {
            const n = pattern === 'cancel-full' && full.end === 'cancelled' ? after : deltas.length
            ok(full.end !== 'errored', () => `full stream failed: ${show(full.error)}`)
            eq(full.chunks, deltasOf(ev).slice(0, n), 'full stream')
          }
          if (txt) {
            ok(txt.end !== 'errored', () => `text stream failed: ${show(txt.error)}`)
            if (txt.end === 'closed') eq(txt.chunks.join(''), deltas.join(''), 'text stream')
            else ok(deltas.join('').startsWith(txt.chunks.join('')), 'text read before cancelling is a prefix')
          }
          const form = srv.log[0].form
          eq(form.filter(([k]) => k === 'stream'), [['stream', 'true']], 'stream field')
        },
      },
      {
        name: 'faulty', runs: 1500,
        arb: () => fc.record({ f: file(), deltas: fc.array(text(2), { minLength: 1, maxLength: 6 }), noise: fc.boolean(), fault: fc.constantFrom(...FAULTS), pos: fc.nat({ max: 9 }), gap: fc.constantFrom(0, 2), only: fc.constantFrom('all', 'text', 'full', 'promise'), latency: fc.constantFrom(0, 3), what: thrown() }),
        check: async ({ f, deltas, noise, fault, pos, gap, only, latency, what }, t) => {
          t.nontrivial(); t.cls(fault, `reads-${only}`)
          const ev = events({ deltas, noise, done: true })
          const good = ev.slice(0, pos % (ev.length + 1))
          const boom = mkThrown(what)
          const ctl = new AbortController()
          const chunks = good.map(e => ({ bytes: `data: ${JSON.stringify(e)}\n\n`, delay: gap }))
          let is = e => e === (fault === 'abort' ? ctl.signal.reason : boom)
          if (fault === 'break') chunks.push({ error: boom, delay: 1 })
          if (fault === 'malformed') { chunks.push({ bytes: 'data: {"type":\n\n' }); is = e => lib.shared.JSONParseError.isInstance(e) }
          if (fault === 'errorEvent') { chunks.push({ bytes: 'data: {"error":{"message":"x"}}\n\n' }); is = e => lib.shared.RemoteAPIError.isInstance(e) }
          if (fault === 'status') is = e => lib.shared.APICallError.isInstance(e) && e.statusCode === 400 + pos
          if (fault === 'empty') is = e => lib.shared.InvalidResponseError.isInstance(e)
          if (fault === 'abort') chunks.push({ bytes: ': wait\n\n', delay: 1000 })
          const srv = makeServer(() => fault === 'status' ? { status: 400 + pos, body: 'no', latency } : fault === 'reject' ? { reject: boom, latency } : fault === 'empty' ? { body: null, latency } : ({ latency, headers: { 'content-type': 'text/event-stream' }, chunks }))
          if (fault === 'abort') env.at(latency + gap * good.length + 20, () => ctl.abort(boom))
          const s = X.streamTranscription({ ...opts(f), fetch: srv.fetch, abortSignal: ctl.signal })
          const [full, txt, whole] = await Promise.all([
            only === 'all' || only === 'full' ? collect(s.fullStream) : undefined,
            only === 'all' || only === 'text' ? collect(s.textStream) : undefined,
            only === 'all' || only === 'promise' ? outcome(s.text) : undefined,
          ])
          if (whole) ok(!whole.ok && is(whole.error), () => `text settled as ${show(whole)}`)
          const sent = deltasOf(good)
          for (const [nm, x] of [['full stream', full], ['text stream', txt]]) if (x) ok(x.end === 'errored' && is(x.error), () => `${nm} ended ${x.end}: ${show(x.error)}`)
          // a stream that fails may discard what was not read yet
          if (full) eq(full.chunks, sent.slice(0, full.chunks.length), 'full stream before the fault')
          if (txt) ok(sent.map(e => e.delta).join('').startsWith(txt.chunks.join('')), 'text before the fault')
        },
      },
    ],
  }
}
