// Bundles the current working tree of /repo (TypeScript sources, through the packages' own exports)
// into one ES module, so every run decides the tree as it is now.
import { createRequire } from 'node:module'
import { mkdirSync, writeFileSync } from 'node:fs'
import { join } from 'node:path'

export const REPO = process.env.VERIF_REPO ?? '/repo'
const req = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = req('esbuild')

const P = p => JSON.stringify(join(REPO, p))

const ENTRY = () => `
export * as xsai from ${P('packages-top/xsai/src/index.ts')}
export * as shared from ${P('packages/shared/src/index.ts')}
export * as chat from ${P('packages/shared-chat/src/index.ts')}
export * as sharedStream from ${P('packages/shared-stream/src/index.ts')}
export * as responses from ${P('packages-ext/responses/src/index.ts')}
export * as telemetry from ${P('packages-ext/telemetry/src/index.ts')}
export * as providers from ${P('packages-ext/providers/src/index.ts')}
export * as providersCreate from ${P('packages-ext/providers/src/create.ts')}
export * as providersSpecial from ${P('packages-ext/providers/src/special/index.ts')}
export * as providersSpecialCreate from ${P('packages-ext/providers/src/special/create.ts')}
export * as providersUtils from ${P('packages-ext/providers/src/utils/index.ts')}
export * as xsfetch from ${P('packages-top/xsfetch/src/index.ts')}
export * as xsschema from ${P('packages-top/xsschema/src/index.ts')}
export * as valibot from ${P('packages-top/xsschema/node_modules/valibot')}
export * as valibotJson from ${P('packages-top/xsschema/node_modules/@valibot/to-json-schema')}
export * as zod from ${P('packages-top/xsschema/node_modules/zod/v4/index.js')}
export * as zod3 from ${P('packages-top/xsschema/node_modules/zod/v3/index.js')}
export * as zodMini from ${P('packages-top/xsschema/node_modules/zod/v4-mini/index.js')}
export * as arktype from ${P('packages-top/xsschema/node_modules/arktype')}
export { Schema as effectSchema } from ${P('packages-top/xsschema/node_modules/effect')}
export * as sury from ${P('packages-top/xsschema/node_modules/sury')}
export * as otelApi from ${P('packages-ext/telemetry/node_modules/@opentelemetry/api')}
export * as otelBase from ${P('packages-ext/telemetry/node_modules/@opentelemetry/sdk-trace-base')}
export * as otelNode from ${P('packages-ext/telemetry/node_modules/@opentelemetry/sdk-trace-node')}
`

// the provider presets alone: small enough to be evaluated again for every generated environment
const PROVIDERS = () => `
export * as presets from ${P('packages-ext/providers/src/index.ts')}
export * as special from ${P('packages-ext/providers/src/special/index.ts')}
`

export const build = async (dir) => {
  mkdirSync(dir, { recursive: true })
  const entry = join(dir, 'entry.mjs')
  writeFileSync(entry, ENTRY())
  const small = join(dir, 'presets-entry.mjs')
  writeFileSync(small, PROVIDERS())
  await esbuild.build({ entryPoints: [small], outfile: join(dir, 'presets.mjs'), bundle: true, minify: true, platform: 'node', target: 'node22', format: 'esm', logLevel: 'error', absWorkingDir: REPO })
  const outfile = join(dir, 'lib.mjs')
  await esbuild.build({
    entryPoints: [entry],
    outfile,
    bundle: true,
    platform: 'node',
    target: 'node22',
    format: 'esm',
    keepNames: true,
    logLevel: 'error',
    absWorkingDir: REPO,
    sourcemap: 'inline',
    banner: { js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);' },
  })
  return outfile
}
