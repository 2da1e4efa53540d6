import { eq, fc, makeServer, ok, text1 } from '../lib/kit.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'

export default ({ lib }) => {
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const posting = e => e.method === 'POST'
  return {
    rule: 'A case is one client entry point with generated options (named options present/absent/explicitly undefined, arbitrary pass-through options with nested JSON values, tools, callbacks, credentials). Non-trivial: at least 3 option keys beyond the required ones, or a multipart upload. Oracle: the independently written option-to-wire mapping.',
    subs: [{
      name: 'body',
      runs: 9000,
      arb: () => endpointCase(eps, posting, { secret: fc.string({ minLength: 4, maxLength: 8 }).map(s => `SECRET-${[...s].map(c => c.codePointAt(0).toString(36)).join('')}`), signal: fc.boolean(), label: text1(1) }),
      check: async (c, t) => {
        const ep = by[c.ep]
        const srv = makeServer(() => ep.reply(c.spec))
        const options = {
          ...ep.options(c.spec), baseURL: `https://h.example/${c.secret}-base/`, apiKey: `${c.secret}-key`,
          headers: { 'x-private': `${c.secret}-hdr` }, fetch: srv.fetch, ...(c.signal ? { abortSignal: new AbortController().signal } : {}),
        }
        await ep.run(options)
        ok(srv.log.length === 1, `${c.ep}: expected exactly one request, saw ${srv.log.length}`)
        const r = srv.log[0]
        t.cls(c.ep)
        if (ep.form) {
          t.nontrivial()
          ok(r.form, `${c.ep}: body must be multipart form data`)
          const file = r.form.filter(([k]) => k === 'file')
          ok(file.length === 1, `${c.ep}: exactly one file part`)
          const sortf = a => [...a].sort((x, y) => (x[0] + x[1] < y[0] + y[1] ? -1 : 1))
          eq(sortf(r.form.filter(([k]) => k !== 'file')), sortf(ep.formFields(c.spec)), `${c.ep}: form fields`)
          const bytes = new Uint8Array(await file[0][1].arrayBuffer())
          eq([...bytes], [...c.spec.file.bytes], `${c.ep}: uploaded bytes`)
          eq(file[0][1].type, c.spec.file.type, `${c.ep}: uploaded media type`)
          eq(file[0][1].name, c.spec.fileName ?? (c.spec.file.asFile ? 'orig.mp3' : 'blob'), `${c.ep}: uploaded file name`)
          ok(!JSON.stringify(r.form).includes(c.secret), `${c.ep}: credential leaked into the body`)
          return
        }
        ok(r.json !== undefined, `${c.ep}: body must be a JSON string`)
        const expected = JSON.parse(JSON.stringify(ep.body(c.spec)))
        t.nontrivial(Object.keys(expected).length >= 5)
        eq(r.json, expected, `${c.ep}: JSON body`)
        ok(!r.text.includes(c.secret), `${c.ep}: credential or transport option leaked into the body: ${r.text.slice(0, 300)}`)
      },
    }],
  }
}
