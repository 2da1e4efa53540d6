import { eq, fc, jsonReply, makeServer, mkThrown, ok, outcome, show, sized, text, thrown } from '../lib/kit.mjs'

const be = n => [n >>> 24 & 255, n >>> 16 & 255, n >>> 8 & 255, n & 255]
const le = n => be(n).reverse()
const ascii = s => [...s].map(c => c.charCodeAt(0))
// the leading bytes each format begins with; the parts that vary between real files are generated
const FORMATS = {
  png: { types: ['image/png'], head: () => [0x89, ...ascii('PNG\r\n'), 0x1A, 0x0A, ...be(13), ...ascii('IHDR')] },
  jpeg: { types: ['image/jpeg', 'image/jpg'], head: r => [0xFF, 0xD8, 0xFF, [0xE0, 0xE1, 0xDB, 0xEE][r % 4]] },
  gif: { types: ['image/gif'], head: r => ascii(r % 2 ? 'GIF87a' : 'GIF89a') },
  webp: { types: ['image/webp'], head: r => [...ascii('RIFF'), ...le((r * 2654435761) % 0x7FFFFFFF), ...ascii('WEBP'), ...ascii(r % 2 ? 'VP8 ' : 'VP8L')] },
  avif: { types: ['image/avif'], head: r => [...be(16 + 4 * (r % 8)), ...ascii('ftyp'), ...ascii(r % 5 === 4 ? 'avis' : 'avif'), 0, 0, 0, 0, ...ascii('avif')] },
}
const image = () => fc.record({ f: fc.constantFrom(...Object.keys(FORMATS)), r: fc.nat({ max: 100000 }), tail: fc.uint8Array({ maxLength: 40 }), big: fc.constantFrom(0, 0, 0, 0, 70000) })
  .map(({ f, r, tail, big }) => ({ f, r, tail: [...tail], big }))
const bytesOf = i => Buffer.concat([Buffer.from([...FORMATS[i.f].head(i.r), ...i.tail]), Buffer.alloc(i.big, i.r % 256)])
const entry = () => fc.record({
  img: image(),
  form: fc.constantFrom('b64', 'b64', 'b64', 'url', 'url', 'both'),
  // what the server that holds the image says about it
  ctype: fc.constantFrom('right', 'right', 'params', 'absent', 'octet', 'upper'),
  revised: fc.option(text(2), { nil: undefined }),
  delay: fc.constantFrom(0, 0, 5, 1),
})

export default ({ lib }) => ({
  rule: 'A case is a reply with up to six images (now and then forty) of generated formats (real leading bytes with their varying parts, arbitrary content after them), each inline, by address or both on a host with its own content type and latency; or the same with one image failing. Non-trivial: at least two images, or one by address. Oracle: the generated bytes and formats.',
  assumptions: ['JPEG may be labelled image/jpeg or image/jpg', 'a host that names an image type names the right one'],
  subs: [
    {
      name: 'images', runs: 1800,
      arb: () => fc.record({ list: sized(fc.array(entry(), { maxLength: 6 }), fc.array(entry().map(e => ({ ...e, img: { ...e.img, big: 0 } })), { minLength: 11, maxLength: 40 })), n: fc.option(fc.integer({ min: 1, max: 6 }), { nil: undefined }), signal: fc.boolean(), own: fc.boolean() }),
      check: async ({ list, n, signal, own }, t) => {
        t.nontrivial(list.length > 1 || list.some(e => e.form === 'url')); t.cls(...list.map(e => `${e.img.f}-${e.form}`))
        const data = list.map((e, i) => ({ ...(e.form !== 'url' ? { b64_json: bytesOf(e.img).toString('base64') } : {}), ...(e.form === 'b64' ? {} : { url: `https://img.example/${i}?sig=a%2Fb+c` }), ...(e.revised !== undefined ? { revised_prompt: e.revised } : {}) }))
        const srv = makeServer((req) => {
          if (req.url.startsWith('https://h.example/')) return jsonReply({ created: 1, data })
          const e = list[Number(new URL(req.url).pathname.slice(1))]
          if (e.form === 'both') return { status: 404, body: 'expired' } // inline bytes are there; the address need not be
          const right = FORMATS[e.img.f].types[0]
          const type = { right, params: `${right}; charset=binary`, octet: 'application/octet-stream', upper: right.toUpperCase() }[e.ctype]
          return { status: 200, headers: type ? { 'content-type': type } : {}, body: new Uint8Array(bytesOf(e.img)), latency: e.delay }
        })
        const ctl = new AbortController()
        // without a transport of the caller's, the platform's serves the call and the downloads
        const saved = globalThis.fetch
        globalThis.fetch = own ? () => { throw new Error('the platform transport was used') } : srv.fetch
        let r
        try { r = await outcome(lib.xsai.generateImage({ baseURL: 'https://h.example/v1', apiKey: 'secret', model: 'm', prompt: 'p', n, ...(own ? { fetch: srv.fetch } : {}), ...(signal ? { abortSignal: ctl.signal } : {}) })) }
        finally { globalThis.fetch = saved }
        ok(r.ok, () => `failed: ${show(r.error)}`)
        const { images, image: first } = r.value
        ok(images.length === list.length, () => `${images.length} images for ${list.length}`)
        list.forEach((e, i) => {
          const m = /^data:([^;,]*);base64,(.*)$/s.exec(images[i].base64)
          ok(m, () => `image ${i} is not a data URL: ${images[i].base64.slice(0, 80)}`)
          ok(Buffer.from(m[2], 'base64').equals(bytesOf(e.img)), () => `bytes of image ${i} (${e.img.f}, ${e.form}) changed`)
          ok(FORMATS[e.img.f].types.includes(m[1]) && m[1] === images[i].mimeType, () => `image ${i} is ${e.img.f} (${e.form}, content type ${e.ctype}) but labelled ${m[1]} / ${images[i].mimeType}`)
        })
        eq(first, images[0], 'image is the first of images')
        const fetched = srv.log.slice(1).filter(x => list[Number(new URL(x.url).pathname.slice(1))]?.form !== 'both')
        eq(fetched.map(x => x.url).sort(), data.filter(d => d.url && !d.b64_json).map(d => d.url).sort(), 'addresses fetched')
        for (const x of fetched) {
          ok(x.method === 'GET' && !('authorization' in x.headers), () => `image request ${x.method} with ${show(x.headers)}`)
          ok(x.signal === (signal ? ctl.signal : undefined), 'image requests carry the abort signal')
        }
      },
    },
    {
      name: 'failing', runs: 700,
      arb: () => fc.record({ list: fc.array(entry(), { minLength: 1, maxLength: 4 }), at: fc.nat({ max: 3 }), how: fc.constantFrom('status', 'reject', 'abort', 'shapeless'), code: fc.constantFrom(400, 403, 404, 500), what: thrown() }),
      check: async ({ list, at, how, code, what }, t) => {
        t.nontrivial(); t.cls(how)
        const k = at % list.length
        const boom = mkThrown(what)
        const data = list.map((e, i) => i === k ? (how === 'shapeless' ? { file: 'x' } : { url: `https://img.example/${i}` }) : { b64_json: bytesOf(e.img).toString('base64') })
        const ctl = new AbortController()
        const srv = makeServer((req) => {
          if (req.url.startsWith('https://h.example/')) return jsonReply({ created: 1, data })
          if (how === 'reject') return { reject: boom }
          if (how === 'abort') { ctl.abort(boom); return { status: 200, body: 'x', latency: 2 } }
          return { status: code, body: 'expired' }
        })
        const r = await outcome(lib.xsai.generateImage({ baseURL: 'https://h.example/v1', model: 'm', prompt: 'p', fetch: srv.fetch, abortSignal: ctl.signal }))
        ok(!r.ok, () => `an image that cannot be had was ignored: ${show(r.value)}`)
        if (how === 'status') ok(lib.shared.APICallError.isInstance(r.error) && r.error.statusCode === code, () => `unexpected error ${show(r.error)}`)
        if (how === 'reject' || how === 'abort') ok(r.error === (how === 'abort' ? ctl.signal.reason : boom), () => `unexpected error ${show(r.error)}`)
      },
    },
  ],
})
