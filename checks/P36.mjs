import { clone, collect, eq, fc, frac, makeServer, ok, outcome, show, splitText, text } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'

const timed = async (stream) => {
  const at = []
  const r = await collect(stream, { onChunk: (v) => { at.push([env.now, v]) } })
  return { ...r, at, ended: env.now }
}
// what had been delivered at each instant: { time: joined content }, empty pieces dropped
const byTime = (list) => {
  const out = {}
  for (const [t, s] of list) if (s !== '' && s != null) out[t] = (out[t] ?? '') + s
  return out
}
const chatText = (e) => { const d = e.choices?.[0]?.delta; return d?.content ?? d?.refusal ?? '' }
const chatReason = (e) => { const d = e.choices?.[0]?.delta; return d?.reasoning ?? d?.reasoning_content ?? '' }
const chatArgs = e => (e.choices?.[0]?.delta?.tool_calls ?? []).map(c => c.function?.arguments ?? '').join('')
const pick = (...types) => e => types.includes(e.type) ? e.delta : ''
const CONTENT = {
  chat: { text: chatText, reasoning: chatReason, args: chatArgs, starts: () => '' },
  responses: { text: pick('response.output_text.delta', 'response.refusal.delta'), reasoning: pick('response.reasoning.delta', 'response.reasoning_summary_text.delta'), args: pick('response.function_call_arguments.delta'), starts: e => e.type === 'response.output_item.added' && e.item?.type === 'function_call' ? `${e.item.call_id};` : '' },
  streamTranscription: { text: pick('transcript.text.delta') },
}
const gaps = () => fc.array(fc.integer({ min: 1, max: 6 }), { minLength: 1, maxLength: 4 })

export default ({ lib }) => {
  const kinds = makeStreamKinds(lib)
  const X = lib.xsai
  const live = async (name, { c, delays, latency }, t) => {
    const k = kinds[name]
    // a reply's last event waits for the tools it calls, so these take no time here
    if (name === 'responses') for (const x of c.sc.tools ?? []) x.delay = 0
    const sent = []
    let lastSent = 0
    const srv = makeServer((_, i) => ({
      status: 200, latency, headers: { 'content-type': 'text/event-stream' },
      chunks: [...k.events(clone(c), i).map((e, j) => ({ bytes: `data: ${JSON.stringify(e)}\n\n`, delay: delays[j % delays.length], sent: (at) => { sent.push([at, i, e]); lastSent = at } })), { bytes: 'data: [DONE]\n\n', delay: delays[0], sent: (at) => { lastSent = at } }],
    }))
    const called = []
    const o = await k.start(clone(c), srv.fetch, () => ({ onEvent: (e) => { called.push([env.now, clone(e)]) } }))
    const got = Object.fromEntries(await Promise.all([
      ...Object.entries(o.streams).filter(([, s]) => s).map(async ([n, s]) => [n, await timed(s)]),
      ...Object.entries(o.promises).map(async ([n, p]) => [n, { ...await outcome(p), ended: env.now }]),
    ]))
    for (const [n, g] of Object.entries(got)) ok(g.ok ?? (g.end === 'closed'), () => `${name}.${n} failed: ${show(g.error)}`)
    t.nontrivial(sent.length > 2); t.cls(srv.log.length > 1 && 'many-steps')
    const C = CONTENT[name] ?? CONTENT.chat
    const say = f => byTime(sent.map(([at, , e]) => [at, f(e)]))
    if (name === 'streamSpeech') {
      const hex = b => Buffer.from(b).toString('hex')
      eq(byTime(got.full.at.map(([at, b]) => [at, hex(b)])), byTime(sent.map(([at, , e]) => [at, e.audio ? hex(Buffer.from(e.audio, 'base64')) : ''])), 'audio delivered, by time')
    }
    else {
      eq(byTime(got.text.at), say(C.text), `${name}: text delivered, by time`)
      if (name !== 'streamTranscription') {
        eq(got.full.at, sent.map(([at, , e]) => [at, e]), `${name}: raw chunks delivered, by time`)
        eq(byTime(got.reasoning.at), say(C.reasoning), `${name}: reasoning delivered, by time`)
        const ev = type => byTime(got.event.at.map(([at, e]) => [at, e.type === type ? e.delta : '']))
        eq(ev('text.delta'), say(C.text), `${name}: text events, by time`)
        eq(ev('reasoning.delta'), say(C.reasoning), `${name}: reasoning events, by time`)
        eq(ev('tool-call.delta'), say(C.args), `${name}: tool-call argument events, by time`)
        // a call is announced with the first event that mentions it
        const known = new Set()
        const first = C === CONTENT.chat
          ? byTime(sent.flatMap(([at, i, e]) => (e.choices?.[0]?.delta?.tool_calls ?? []).filter((d) => { const key = `${i}/${d.index}`; return !known.has(key) && known.add(key) }).map(d => [at, `${d.id};`])))
          : say(C.starts)
        eq(byTime(got.event.at.map(([at, e]) => [at, e.type === 'tool-call.start' ? `${e.toolCallId};` : ''])), first, `${name}: announced tool calls, by time`)
        eq(called, got.event.at, `${name}: event callback, by time`)
      }
      else { eq(got.full.at.map(([at, e]) => [at, e.delta]), sent.filter(([, , e]) => e.type === 'transcript.text.delta').map(([at, , e]) => [at, e.delta]), 'raw chunks delivered, by time') }
    }
    if (name === 'streamObject') objects(c, sent, got)
    // the call is over as soon as the last reply is
    for (const [n, g] of Object.entries(got)) ok(g.ended <= lastSent, () => `${name}.${n} ended at ${g.ended}, the last reply at ${lastSent}`)
  }
  const objects = (c, sent, got) => {
    const whole = JSON.stringify(c.out === 'array' ? { elements: c.vals } : c.vals[0] ?? { a: '' })
    let soFar = ''
    const starts = []
    if (c.out === 'array') { let at = '{"elements":['.length; c.vals.forEach((v) => { starts.push(at); at += JSON.stringify(v).length + 1 }) }
    for (const [at, , e] of sent) {
      soFar += chatText(e)
      if (c.out === 'array') {
        const due = starts.filter((s, i) => i > 0 && soFar.length > s).length
        const had = got.el.at.filter(([t]) => t <= at).length
        ok(had >= due, () => `after ${show(soFar)} only ${had} of ${due} completed elements were delivered`)
      }
      else if (soFar.length > 7) {
        // the value of "a" as far as it certainly has arrived
        let sure = ''
        for (let cut = 0; cut <= 6; cut++) { try { sure = JSON.parse(`${soFar.slice(0, Math.max(6, soFar.length - cut))}"}`).a; break } catch { /* inside an escape */ } }
        if (soFar.length === whole.length) sure = JSON.parse(whole).a
        const last = got.po.at.findLast(([t]) => t <= at)?.[1]
        ok((last?.a ?? '').startsWith(sure), () => `after ${show(soFar)} the partial object was ${show(last)}`)
      }
    }
  }
  const names = ['streamText', 'telemetryStreamText', 'streamObject', 'responses', 'streamSpeech', 'streamTranscription']
  const feed = (ps, wait) => { let i = 0; const sent = []; return { sent, src: new ReadableStream({ async pull(k) { if (i >= ps.length) return k.close(); await env.sleep(wait); sent.push([env.now, ps[i]]); k.enqueue(ps[i++]) } }, { highWaterMark: 0 }) } }
  const cut = () => fc.array(frac(), { minLength: 1, maxLength: 12 })
  return {
    rule: 'A case is one streaming call (six kinds, multi-step with tools where it has them) whose server sends every event after a pause, or a text that is split by reasoning tags, smoothed or parsed into objects while its pieces arrive one by one. Non-trivial: more than two events or pieces. Oracle: virtual-clock times - what each output had delivered at every instant equals what the server had sent by then (or falls short by no more than a possible tag, an incomplete unit, an unfinished element).',
    assumptions: ['outputs are read at once'],
    subs: [
      ...names.map(name => ({ name, runs: name === 'streamText' || name === 'responses' ? 1800 : 900, arb: () => fc.record({ c: kinds[name].gen(), delays: gaps(), latency: fc.constantFrom(0, 5) }), check: (x, t) => live(name, x, t) })),
      {
        name: 'splitter', runs: 1500,
        arb: () => fc.record({ tag: fc.constantFrom('think', 'a', 'c++', '思考'), bits: fc.array(fc.oneof(fc.constantFrom('<T>', '</T>', '<T>', '</T>', '<', '</', 'x<T', 'plain ', 'words here', '\n'), text(2)), { minLength: 1, maxLength: 9 }), cuts: cut(), start: fc.boolean() }),
        check: async ({ tag, bits, cuts, start }, t) => {
          const s = bits.map(b => b.replaceAll('T', tag)).join('')
          const ps = splitText(s, cuts)
          t.nontrivial(ps.length > 2)
          const { sent, src } = feed(ps, 5)
          const r = X.extractReasoningStream(src, { tagName: tag, startWithReasoning: start, separator: '' })
          const [re, tx] = await Promise.all([timed(r.reasoningStream), timed(r.textStream)])
          ok(re.end === 'closed' && tx.end === 'closed', () => `ended ${re.end} ${tx.end}`)
          let soFar = ''
          for (const [at, p] of sent) {
            soFar += p
            // reference: walk the text so far; the tail may only be held back while it could still become the tag
            let rest = soFar
            let inside = start
            let n = 0
            for (;;) {
              const want = inside ? `</${tag}>` : `<${tag}>`
              const i = rest.indexOf(want)
              if (i === -1) {
                let held = Math.min(rest.length, want.length - 1)
                while (held > 0 && !want.startsWith(rest.slice(rest.length - held))) held--
                n += rest.length - held
                break
              }
              n += i
              rest = rest.slice(i + want.length)
              inside = !inside
            }
            const had = [...re.at, ...tx.at].filter(([w]) => w <= at).reduce((a, [, x]) => a + x.length, 0)
            ok(had >= n, () => `after ${show(soFar)} only ${had} of ${n} characters had been delivered`)
          }
        },
      },
      {
        name: 'smoothing', runs: 1500,
        arb: () => fc.record({ s: fc.array(fc.constantFrom('word', 'a', 'Hello,', '漢字', '😀', ' ', ' ', '\n', '  ', '\n\n', '1'), { maxLength: 24 }).map(a => a.join('')), mode: fc.constantFrom('word', 'line', /\d/, undefined), cuts: cut(), delay: fc.constantFrom(0, 1, 10) }),
        check: async ({ s, mode, cuts, delay }, t) => {
          const ps = splitText(s, cuts)
          t.nontrivial(ps.length > 2)
          const { sent, src } = feed(ps, 1000) // ample time for every piece of what has arrived
          const g = await timed(src.pipeThrough(X.smoothStream({ chunking: mode, delay })))
          ok(g.end === 'closed', () => `ended ${g.end}`)
          let soFar = ''
          for (const [at, p] of sent) {
            soFar += p
            const had = g.at.filter(([w]) => w < at + 1000).map(x => x[1]).join('')
            const rest = soFar.slice(had.length)
            const due = mode === 'line' ? rest.includes('\n') : mode instanceof RegExp ? mode.test(rest) : /\S\s/.test(rest)
            ok(!due, () => `${show(rest)} of ${show(soFar)} was still held back long after it had arrived`)
          }
        },
      },
      {
        name: 'structured', runs: 1200,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), vals: fc.array(fc.record({ a: fc.oneof({ weight: 3, arbitrary: text(3) }, { weight: 1, arbitrary: fc.array(fc.constantFrom('\u0000', '\u001F', '\uD800', '\\', 'u', '"', 'x'), { maxLength: 8 }).map(x => x.join('')) }) }), { minLength: 1, maxLength: 5 }), cuts: cut() }),
        check: async ({ out, vals, cuts }, t) => {
          const c = { out, vals }
          const ps = splitText(JSON.stringify(out === 'array' ? { elements: vals } : vals[0]), cuts)
          t.nontrivial(ps.length > 2); t.cls(out)
          const { sent, src } = feed(ps, 3)
          const g = await timed(out === 'array' ? X.toElementStream(src) : X.toPartialObjectStream(src))
          ok(g.end === 'closed', () => `ended ${g.end}`)
          objects(c, sent.map(([at, content]) => [at, 0, { choices: [{ delta: { content } }] }]), { el: g, po: g })
        },
      },
    ],
  }
}
