import { clone, collect, enc, eq, fc, frac, mkThrown, ok, outcome, show, splitBytes, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'
import { modesFor, observe } from '../lib/observe.mjs'

// a server that knows, for every reply, whether somebody still holds its body open
const holdings = () => {
  const all = []
  const reply = (pieces, { end = 'close', status = 200, headers = {}, label } = {}) => {
    const rec = { label, open: true, sent: 0, how: undefined }
    all.push(rec)
    let i = 0
    const body = new ReadableStream({
      async pull(c) {
        if (!rec.open) return
        if (i < pieces.length) {
          const p = pieces[i++]
          if (p.delay) await env.sleep(p.delay)
          if (!rec.open) return
          rec.sent++
          c.enqueue(p.bytes)
          return
        }
        if (end === 'endless') return new Promise(() => {}) // the server has more to say, some day
        rec.open = false
        if (end === 'close') { rec.how = 'read to the end'; c.close() }
        else { rec.how = 'broken'; c.error(end) }
      },
      cancel() { rec.open = false; rec.how = 'cancelled' },
    }, { highWaterMark: 0 })
    return new Response(body, { status, headers })
  }
  return { all, reply, left: () => all.map((r, i) => r.open ? `reply ${i} (${r.label ?? ''}, ${r.sent} pieces sent)` : '').filter(Boolean) }
}
const sseBytes = e => enc.encode(`data: ${typeof e === 'string' ? e : JSON.stringify(e)}\n\n`)
const closed = (h, what) => ok(h.left().length === 0, () => `${what}: still held open after the call has ended: ${h.left().join(', ')}`)

export default ({ lib }) => {
  const kinds = makeStreamKinds(lib)
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const X = lib.xsai
  const names = ['streamText', 'telemetryStreamText', 'streamObject', 'responses', 'streamSpeech', 'streamTranscription']
  const THROWS = ['onEvent', 'onStepFinish', 'stopWhen', 'onFinish', 'prepareStep']
  return {
    rule: 'A case is a call whose replies are observed from the server\'s side: streaming calls (six kinds, many steps) that succeed or fail half-way - a malformed event, an error event, a callback that throws, an abort while tools run - on a connection that stays open afterwards; every endpoint with good and bad replies; the retrying transport; cancelled readers. Non-trivial: the call fails, is retried, continues with another step, or is cancelled. Oracle: once the call has settled, every body was read to its end, cancelled, or broken by the server.',
    assumptions: ['the transport does not close a body by itself'],
    subs: [
      ...names.map(name => ({
        name, runs: name === 'streamObject' || name === 'streamText' || name === 'responses' ? 1200 : 700,
        arb: () => fc.record({ c: kinds[name].gen(), fault: fc.oneof({ weight: 1, arbitrary: fc.constant({ k: 'none' }) }, { weight: 3, arbitrary: fc.record({ k: fc.constantFrom('malformed', 'errorEvent', ...(name === 'streamSpeech' ? ['base64', 'base64'] : [])), step: fc.nat({ max: 3 }), at: fc.nat({ max: 20 }) }) }, ...(kinds[name].outs.includes('event') ? [{ weight: 4, arbitrary: fc.record({ k: fc.constantFrom(...THROWS), at: fc.nat({ max: 12 }) }) }, { weight: 2, arbitrary: fc.record({ k: fc.constant('abort'), at: fc.nat({ max: 30 }) }) }] : [])), delay: fc.constantFrom(0, 0, 2), tail: fc.nat({ max: 12 }), modes: modesFor(kinds[name].outs), end: fc.constantFrom('close', 'endless') }),
        check: async ({ c, fault, delay, tail, modes, end }, t) => {
          const k = kinds[name]
          const h = holdings()
          let struck = false
          const boom = new Error('BOOM')
          const fetch = async (_, init) => {
            const i = h.all.length
            if (i > 100) throw new Error('runaway')
            const events = k.events(clone(c), i).map(e => sseBytes(e))
            let over = 'close'
            let pieces = events
            if (['malformed', 'errorEvent', 'base64'].includes(fault.k) && fault.step === i) {
              struck = true
              over = end
              const at = fault.at % (events.length + (name === 'responses' ? 0 : 1)) // behind a closing event nobody looks
              const bad = fault.k === 'malformed' ? '{"x":' : fault.k === 'base64' ? { type: 'speech.audio.delta', audio: '%%%' } : { error: { message: 'quota' } }
              pieces = [...events.slice(0, at), sseBytes(bad), ...events.slice(at)]
            }
            // keep-alives behind the last event: nothing that a call waits for
            const more = Array.from({ length: tail }, () => enc.encode(': keep-alive\n\n'))
            return h.reply([...pieces, ...more, sseBytes('[DONE]')].map(bytes => ({ bytes, delay })), { end: over, label: `step ${i}`, headers: { 'content-type': 'text/event-stream' }, signal: init?.signal })
          }
          const ac = new AbortController()
          if (fault.k === 'abort') env.at(env.now + fault.at, () => { ac.abort(boom) })
          let calls = 0
          const strike = which => () => { if (fault.k === which && calls++ === (which === 'onEvent' ? fault.at : fault.at % 3)) { struck = true; throw boom } }
          const o = await k.start(clone(c), fetch, () => ({
            ...(fault.k === 'abort' ? { abortSignal: ac.signal } : {}),
            onFinish: strike('onFinish'), onEvent: strike('onEvent'), onStepFinish: strike('onStepFinish'),
            ...(fault.k === 'prepareStep' ? { prepareStep: () => { strike('prepareStep')(); return {} } } : {}),
            ...(fault.k === 'stopWhen' ? { stopWhen: () => { strike('stopWhen')(); return false } } : {}),
          }))
          if (name === 'streamSpeech' && modes.full.m === 'never') modes = { ...modes, full: { m: 'now' } } // its reply is read as its output is
          await observe(o.streams, o.promises, modes)
          const all = await Promise.all(Object.values(o.promises).map(outcome))
          if (fault.k === 'abort') struck = all.some(x => !x.ok)
          await env.quiesce()
          t.nontrivial(struck || h.all.length > 1); t.cls(struck ? fault.k : 'undisturbed', h.all.length > 1 && 'many-steps')
          ok(all.every(x => x.ok === !struck) || name === 'streamSpeech' || fault.k === 'base64', () => `settled ${show(all)}`)
          closed(h, name)
        },
      })),
      {
        name: 'endpoints', runs: 1500,
        arb: () => endpointCase(eps, () => true, { how: fc.constantFrom('good', 'good', 'status', 'malformed', 'break'), status: fc.constantFrom(300, 400, 401, 404, 429, 500, 503), pieces: fc.nat({ max: 6 }), cuts: fc.array(frac(), { maxLength: 6 }) }),
        check: async ({ ep: name, spec, how, status, pieces, cuts }, t) => {
          const ep = by[name]
          const h = holdings()
          const fetch = async () => {
            const good = ep.reply(spec)
            const bytes = good.chunks?.map(x => x.bytes) ?? splitBytes(typeof good.body === 'string' ? enc.encode(good.body) : good.body, cuts)
            const list = { good: bytes, break: bytes.slice(0, pieces), status: splitBytes(enc.encode('{"error":"no such thing"}'), cuts), malformed: splitBytes(enc.encode(ep.kind === 'sse' ? 'data: {oops\n\ndata: {}\n\n' : '{"oops'), cuts) }[how]
            return h.reply(list.map(bytes => ({ bytes })), { status: how === 'status' ? status : good.status ?? 200, headers: good.headers, end: how === 'break' ? new Error('BOOM') : 'close', label: how })
          }
          const r = await outcome(ep.run({ ...ep.options(spec), baseURL: 'https://h.example/v1', apiKey: 'k', fetch }))
          await env.quiesce()
          t.nontrivial(how !== 'good'); t.cls(how, name)
          if (how === 'good') ok(r.ok, () => `${name} failed: ${show(r.error)}`)
          else if (how !== 'malformed' || ep.kind !== 'binary') ok(!r.ok, () => `${name}: a reply that is ${how} succeeded`)
          closed(h, name)
        },
      },
      {
        name: 'images', runs: 500,
        arb: () => fc.record({ list: fc.array(fc.record({ how: fc.constantFrom('good', 'good', 'status', 'break'), size: fc.nat({ max: 4 }), delay: fc.constantFrom(0, 0, 3) }), { minLength: 1, maxLength: 4 }) }),
        check: async ({ list }, t) => {
          const h = holdings()
          const fetch = async (url) => {
            const m = /img(\d)/.exec(String(url))
            if (!m) return h.reply([{ bytes: enc.encode(JSON.stringify({ data: list.map((_, i) => ({ url: `https://cdn.example/img${i}` })) })) }], { label: 'list' })
            const { how, size, delay } = list[m[1]]
            return h.reply(Array.from({ length: size }, () => ({ bytes: new Uint8Array([1, 2, 3]), delay })), { status: how === 'status' ? 404 : 200, headers: { 'content-type': 'image/png' }, end: how === 'break' ? new Error('BOOM') : 'close', label: how })
          }
          t.nontrivial(list.some(x => x.how !== 'good')); t.cls(`${list.length} images`)
          const r = await outcome(X.generateImage({ baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', prompt: 'p', fetch }))
          await env.quiesce()
          eq(r.ok, list.every(x => x.how === 'good'), 'success')
          closed(h, 'images')
        },
      },
      {
        name: 'retry', runs: 900,
        arb: () => fc.record({ script: fc.array(fc.constantFrom(429, 500, 503, 408, 200, 404), { minLength: 1, maxLength: 5 }), retry: fc.constantFrom(0, 1, 2, 3), size: fc.nat({ max: 5 }), end: fc.constantFrom('close', 'endless'), debug: fc.boolean() }),
        check: async ({ script, retry, size, end, debug }, t) => {
          const h = holdings()
          const f = globalThis.fetch
          globalThis.fetch = async () => {
            const i = h.all.length
            const s = script[Math.min(i, script.length - 1)]
            return h.reply(Array.from({ length: size }, () => ({ bytes: enc.encode('overloaded ') })), { status: s, end, label: `attempt ${i}: ${s}` })
          }
          let r
          try { r = await lib.xsfetch.createFetch({ retry, retryDelay: 5, debug })('https://h.example/v1/x') }
          finally { globalThis.fetch = f }
          await env.quiesce()
          t.nontrivial(h.all.length > 1); t.cls(`${h.all.length} attempts`)
          // the one that is handed out belongs to the caller, untouched
          const mine = h.all.at(-1)
          ok(mine.open && mine.sent === 0 && r.status === script[Math.min(h.all.length, script.length) - 1], () => `the reply handed out: ${show(mine)}`)
          await r.body.cancel()
          closed(h, 'retrying transport')
        },
      },
      {
        name: 'cancelled', runs: 900,
        arb: () => fc.record({ n: fc.nat({ max: 4 }), what: fc.constantFrom('speech', 'smooth', 'elements', 'partial', 'speech'), size: fc.integer({ min: 5, max: 12 }) }),
        check: async ({ n, what, size }, t) => {
          t.nontrivial(); t.cls(what)
          const h = holdings()
          const ev = i => what === 'speech' ? sseBytes({ type: 'speech.audio.delta', audio: Buffer.from([i]).toString('base64') }) : enc.encode({ smooth: 'word ', elements: i === 0 ? '{"elements":[0' : `,${i}`, partial: i === 0 ? '{"a0":0' : `,"a${i}":${i}` }[what])
          const rep = h.reply(Array.from({ length: size }, (_, i) => ({ bytes: ev(i), delay: 1 })), { end: 'endless', label: what })
          let out
          let usage
          if (what === 'speech') { const r = await X.streamSpeech({ baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', input: 'q', voice: 'v', fetch: async () => rep }); out = r.fullStream; usage = outcome(r.usage) }
          else {
            const text = rep.body.pipeThrough(new TextDecoderStream())
            out = what === 'smooth' ? text.pipeThrough(X.smoothStream({ delay: 1 })) : what === 'elements' ? X.toElementStream(text) : X.toPartialObjectStream(text)
          }
          const got = n === 0 ? await out.cancel('enough').then(() => ({ end: 'cancelled' })) : await collect(out, { cancelAfter: n, reason: 'enough' })
          eq(got.end, 'cancelled', 'end')
          if (usage) await usage
          await env.quiesce()
          closed(h, what)
        },
      },
    ],
  }
}
