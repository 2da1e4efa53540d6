import { clone, collect, cutsArb, enc, eq, fc, makeServer, outcome, sseReply, sseStyle, sseText } from '../lib/kit.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'

const settleAll = async (streams, promises) => ({
  streams: (await Promise.all(Object.entries(streams).map(async ([k, s]) => [k, await collect(s)]))).map(([k, s]) => [k, s.end, s.end === 'errored' ? `${s.error?.name}:${s.error?.message}` : s.chunks]),
  promises: (await Promise.all(Object.entries(promises).map(async ([k, p]) => [k, await outcome(p)]))).map(([k, p]) => [k, p.ok, p.ok ? p.value : `${p.error?.name}:${p.error?.message}`]),
})
export default ({ lib }) => {
  const kinds = makeStreamKinds(lib)
  for (const k of Object.values(kinds)) k.run = async (c, fetch) => { const o = await k.start(c, fetch); return settleAll(o.streams, o.promises) }
  // a payload may also be spread over several data lines: JSON does not care about the line break
  const render = (payloads, style) => {
    if (!style.pretty) return sseText(payloads, style)
    const nl = style.nl
    const sp = style.space === false ? '' : ' '
    return payloads.map(p => `${JSON.stringify(p, null, 1).split('\n').map(l => `data:${sp}${l}${nl}`).join('')}${nl}`).join('') + (style.done === false ? '' : `data:${sp}[DONE]${nl}${nl}`)
  }
  return {
    rule: 'A case is one streaming call with a generated event sequence (multi-step with tools where the endpoint has them) and one generated wire framing: byte splits anywhere, CRLF or LF, optional space, comments, ids, event names, multi-line data, present or missing end marker, delivery delays. Non-trivial: the framing splits bytes or differs in style from the reference. Oracle: every stream and promise equals that of the canonical framing (one event per chunk), whose raw stream equals the events sent.',
    subs: Object.entries(kinds).flatMap(([name, k]) => [[name, name === 'streamText' || name === 'responses' ? 1800 : 1000, () => k.gen(), fc.constantFrom(0, 0, 0, 1, 2, 3)], [`big-${name}`, 60, () => k.big(), fc.constantFrom(0, 0, 7, 1000, 16384)]].map(([label, runs, gen, everyArb]) => ({
      name: label,
      runs,
      arb: () => fc.record({ c: gen(), style: fc.record({ style: sseStyle(), pretty: fc.boolean() }).map(x => ({ ...x.style, pretty: x.pretty && x.style.space !== undefined })), cuts: cutsArb(14), every: everyArb, delays: fc.array(fc.constantFrom(0, 0, 1, 3), { maxLength: 3 }), bom: fc.boolean(), pad: label.startsWith('big') ? fc.record({ at: fc.nat({ max: 30 }), n: fc.constantFrom(0, 0, 0, 20_000, 40_000, 150_000) }) : fc.constant(null) }),
      check: async ({ c, style, cuts, every, delays, bom, pad }, t) => {
        // one event of any length: providers pad events to hide their size
        const eventsOf = (i) => {
          const ev = k.events(clone(c), i)
          if (pad?.n && ev.length > 0 && (every === 0 || every > 7 || pad.n <= 40_000)) ev[pad.at % ev.length] = { ...ev[pad.at % ev.length], obfuscation: 'xY9 é'.repeat(pad.n / 5) }
          return ev
        }
        const canonical = makeServer((_, i) => ({ status: 200, headers: { 'content-type': 'text/event-stream' }, chunks: [...eventsOf(i).map(e => ({ bytes: `data: ${JSON.stringify(e)}\n\n` })), { bytes: 'data: [DONE]\n\n' }] }))
        const want = await k.run(clone(c), canonical.fetch)
        const framed = makeServer((_, i) => {
          const wire = (bom ? '\ufeff' : '') + render(eventsOf(i), style)
          if (!every) return sseReply(wire, cuts, delays)
          const bytes = enc.encode(wire)
          const chunks = []
          for (let p = 0; p < bytes.length; p += every) chunks.push({ bytes: bytes.slice(p, p + every) })
          return { status: 200, headers: { 'content-type': 'text/event-stream; charset=utf-8' }, chunks }
        })
        const got = await k.run(clone(c), framed.fetch)
        t.nontrivial(cuts.length > 0 || every > 0 || style.nl !== '\n' || style.comments > 0 || style.pretty)
        t.cls(pad?.n && 'padded', style.nl === '\n' ? 'lf' : 'crlf', every && 'tiny-chunks', style.pretty && 'multi-line')
        eq(framed.log.length, canonical.log.length, `${name}: number of requests`)
        eq(got, want, `${name}: outcome under another framing`)
        // the canonical framing itself: the raw stream is what was sent, whatever the payloads say
        const sent = canonical.log.flatMap((_, i) => eventsOf(i))
        const full = want.streams.find(([n]) => n === 'full')?.[2]
        if (name === 'streamSpeech') eq(full.flatMap(x => [...x]), c.parts.flatMap(x => [...x]), `${name}: bytes`)
        else eq(full, name === 'streamTranscription' ? sent.filter(e => e.type === 'transcript.text.delta') : sent, `${name}: events`)
        eq(want.streams.concat(want.promises).filter(x => x[1] === 'errored' || x[1] === false).length > 0, false, `${name}: a good reply must succeed (${JSON.stringify(want).slice(0, 600)})`)
      },
    }))),
  }
}
