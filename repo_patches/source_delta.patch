From 1ab7afdb98b7eb111a2a7e82c7c47c196642098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 01/45] fix: keep the file's own name when no fileName is given
 for transcription

---
 packages/generate-transcription/src/index.ts | 5 ++++-
 packages/stream-transcription/src/index.ts   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..106579b 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,10 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  if (options.fileName != null)
+    body.append('file', options.file, options.fileName)
+  else
+    body.append('file', options.file)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..4d1adac 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -41,7 +41,10 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    if (options.fileName != null)
+      body.append('file', options.file, options.fileName)
+    else
+      body.append('file', options.file)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From f989dc4c53919c54efa9de598c705186d2dda863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 02/45] fix: send user headers given as a Headers object and
 let user headers replace defaults case-insensitively

---
 packages/shared/src/utils/post-json.ts       |  5 +----
 packages/shared/src/utils/request-headers.ts | 23 ++++++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..ffecd3c 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,7 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
-      'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    headers: requestHeaders(options.headers, options.apiKey, { 'Content-Type': 'application/json' }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..31b6a4c 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,22 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+export const requestHeaders = (
+  headers?: CommonRequestOptions['headers'],
+  apiKey?: CommonRequestOptions['apiKey'],
+  defaultHeaders?: Record<string, string>,
+) => {
+  const userHeaders: Record<string, string> = headers instanceof Headers ? Object.fromEntries(headers.entries()) : { ...headers }
+  // header names are case-insensitive
+  const userNames = new Set(Object.keys(userHeaders).map(name => name.toLowerCase()))
+
+  return clean({
+    ...Object.fromEntries(
+      Object.entries({
+        Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
+        ...defaultHeaders,
+      }).filter(([name]) => !userNames.has(name.toLowerCase())),
+    ),
+    ...userHeaders,
+  })
+}
-- 
2.43.0


From ce7ded24686a76662b87bbed6dcf8691eb2ee2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 03/45] fix: report a response without choices as such even
 when it has no usage

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 4 ++--
 packages/generate-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..eecbf71 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..bbbf039 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,8 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From c87add145463da384bfe7224e44f606c9abcd5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 04/45] fix: ignore tool-call deltas without arguments instead
 of appending "undefined"

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..8ae70d3 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -197,8 +197,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
                 else {
-                  tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  const delta = toolCall.function.arguments ?? ''
+                  tool_calls[index].function.arguments! += delta
+                  pushEvent({ delta, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..f03c4f6 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -220,8 +220,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
               else {
-                tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                const delta = toolCall.function.arguments ?? ''
+                tool_calls[index].function.arguments! += delta
+                pushEvent({ delta, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From 86b91abd52018d19938403630b030fe43b7ed79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 05/45] fix: keep streamed tool calls without gaps in the
 history when their indexes are not contiguous

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++--
 packages/stream-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 8ae70d3..5d0dc81 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -211,16 +211,16 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index f03c4f6..9cdc2be 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -234,14 +234,14 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From 102b054408bde91b456600f69e36c573a43b27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 06/45] fix: report each step's own usage and count it once in
 the total

---
 packages-ext/responses/src/utils/responses.ts     |  2 +-
 packages-ext/telemetry/src/wrapped/stream-text.ts | 13 +++++++++----
 packages/stream-text/src/index.ts                 | 13 +++++++++----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..020f50a 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -73,7 +73,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
     text: getText(response),
     toolCalls: stepOptions.toolCalls,
     toolResults: stepOptions.toolResults,
-    usage,
+    usage: response.usage != null ? normalizeUsage(response.usage) : undefined,
   })
 
   const pushStep = (step: CompletionStep) => {
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 5d0dc81..86128bb 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -83,12 +83,12 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
         tools,
       })
 
+      let stepUsage = undefined as undefined | Usage
       const pushUsage = (u: StreamTextChunkResult['usage']) => {
         if (u == null)
           return
 
-        usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
+        stepUsage = normalizeChatCompletionUsage(u)
       }
 
       let text = ''
@@ -230,12 +230,17 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       for (const toolCall of toolCalls)
         pushEvent({ ...toolCall, type: 'tool-call.done' })
 
+      if (stepUsage != null) {
+        usage = stepUsage
+        totalUsage = computeTotalUsage(totalUsage, stepUsage)
+      }
+
       const step: CompletionStep = {
         finishReason,
         text,
         toolCalls,
         toolResults,
-        usage,
+        usage: stepUsage,
       }
       const stop = shouldStop(stopWhen, {
         input: messages,
@@ -269,7 +274,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
 
       const willContinue = validToolCalls.length > 0 && !stop && !options.abortSignal?.aborted
       pushStep(step)
-      pushEvent({ type: 'step.done', usage })
+      pushEvent({ type: 'step.done', usage: stepUsage })
 
       // Telemetry
       span.setAttributes({
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 9cdc2be..3636c28 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -110,12 +110,12 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
       toolChoice: stepOptions.toolChoice,
     })
 
+    let stepUsage = undefined as undefined | Usage
     const pushUsage = (u: StreamTextChunkResult['usage']) => {
       if (u == null)
         return
 
-      usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
+      stepUsage = normalizeChatCompletionUsage(u)
     }
 
     let text = ''
@@ -251,12 +251,17 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     for (const toolCall of toolCalls)
       pushEvent({ ...toolCall, type: 'tool-call.done' })
 
+    if (stepUsage != null) {
+      usage = stepUsage
+      totalUsage = computeTotalUsage(totalUsage, stepUsage)
+    }
+
     const step: CompletionStep = {
       finishReason,
       text,
       toolCalls,
       toolResults,
-      usage,
+      usage: stepUsage,
     }
     const stop = shouldStop(stopWhen, {
       input: messages,
@@ -292,7 +297,7 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
 
     const willContinue = validToolCalls.length > 0 && !stop && !options.abortSignal?.aborted
     pushStep(step)
-    pushEvent({ type: 'step.done', usage })
+    pushEvent({ type: 'step.done', usage: stepUsage })
 
     if (willContinue)
       return async () => doStream()
-- 
2.43.0


From ef56f2bbd18f5165821ebaf733712c0603b99584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 07/45] fix: do not raise unhandled rejections for result
 promises nobody awaits

---
 packages-ext/responses/src/utils/responses.ts     | 3 +++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 3 +++
 packages/stream-text/src/index.ts                 | 3 +++
 packages/stream-transcription/src/index.ts        | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 020f50a..8d10a3b 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -158,6 +158,9 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   const resultSteps = Promise.withResolvers<CompletionStep[]>()
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
+  // a result nobody awaits must not surface as an unhandled rejection
+  for (const { promise } of [resultInput, resultSteps, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
 
   // output
   const [fullStream, fullCtrl] = createControlledStream<FullEvent>()
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 86128bb..77e510d 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -31,6 +31,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   const resultMessages = Promise.withResolvers<Message[]>()
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
+  // a result nobody awaits must not surface as an unhandled rejection
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
 
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 3636c28..c05733b 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -70,6 +70,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   const resultMessages = Promise.withResolvers<Message[]>()
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
+  // a result nobody awaits must not surface as an unhandled rejection
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
 
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 4d1adac..9c82616 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -35,6 +35,8 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
   const [textStream, textStreamCtrl] = createControlledStream<string>()
   const [fullStream, fullStreamCtrl] = createControlledStream<StreamTranscriptionDelta>()
   const fullText = Promise.withResolvers<string>()
+  // a result nobody awaits must not surface as an unhandled rejection
+  fullText.promise.catch(() => {})
   let text = ''
 
   const doStream = async () => {
-- 
2.43.0


From fa44302c713b561029f13db973d88a2456c6d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/45] fix: settle the speech stream's usage when the stream
 fails or is cancelled

---
 packages/stream-speech/src/index.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..1e8178a 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -49,6 +49,8 @@ export interface StreamSpeechResult {
 /** @experimental */
 export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): Promise<StreamSpeechResult> => {
   const usage = Promise.withResolvers<undefined | Usage>()
+  // a usage nobody awaits must not surface as an unhandled rejection
+  usage.promise.catch(() => {})
   let usageResolved = false
 
   const response = await postJSON('audio/speech', {
@@ -56,11 +58,8 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
-    .pipeThrough(new TextDecoderStream())
-    .pipeThrough(new EventSourceParserStream())
-    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
+  const { readable: fullStream, writable }
+    = new TransformStream<StreamSpeechEvent, Uint8Array>({
       flush: () => {
         if (usageResolved)
           return
@@ -95,7 +94,15 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
           throw error
         }
       },
-    }))
+    })
+
+  response.body!
+    .pipeThrough(new TextDecoderStream())
+    .pipeThrough(new EventSourceParserStream())
+    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
+    .pipeTo(writable)
+    // the source failed or the consumer is gone: usage will never arrive
+    .catch(error => usage.reject(error))
 
   return {
     fullStream,
-- 
2.43.0


From 1e7a0d2babda04d2c527dbed282dc309237b92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 09/45] fix: keep text that arrives in the same chunk as
 tool-call deltas

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 ++++++---
 packages/stream-text/src/index.ts                 | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 77e510d..a094562 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -160,7 +160,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             if (choice.finish_reason != null)
               finishReason = choice.finish_reason
 
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
+            const toolCallDeltas = choice.delta.tool_calls ?? []
+
+            if (toolCallDeltas.length === 0 || (choice.delta.content ?? choice.delta.refusal ?? '') !== '') {
               if (choice.delta.content != null) {
                 if (!textStarted) {
                   textStarted = true
@@ -178,9 +180,10 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                 pushText(choice.delta.refusal)
               }
             }
-            else {
+
+            if (toolCallDeltas.length > 0) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-              for (const toolCall of choice.delta.tool_calls) {
+              for (const toolCall of toolCallDeltas) {
                 const { index } = toolCall
 
                 if (!tool_calls.at(index)) {
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index c05733b..bd552c9 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -187,7 +187,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           if (choice.finish_reason != null)
             finishReason = choice.finish_reason
 
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
+          const toolCallDeltas = choice.delta.tool_calls ?? []
+
+          if (toolCallDeltas.length === 0 || (choice.delta.content ?? choice.delta.refusal ?? '') !== '') {
             if (choice.delta.content != null) {
               if (!textStarted) {
                 textStarted = true
@@ -205,9 +207,10 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
               pushText(choice.delta.refusal)
             }
           }
-          else {
+
+          if (toolCallDeltas.length > 0) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-            for (const toolCall of choice.delta.tool_calls) {
+            for (const toolCall of toolCallDeltas) {
               const { index } = toolCall
 
               if (!tool_calls.at(index)) {
-- 
2.43.0


From 7aca1bf2546f23e73e4c4f6d918030b525038463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 10/45] fix: apply tool-call hooks and tool input validation
 with telemetry enabled

---
 packages-ext/telemetry/src/utils/wrap-tool.ts       | 3 +--
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..9d5b183 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -4,6 +4,7 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 import { recordSpan } from './record-span'
 
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
+  ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
@@ -20,6 +21,4 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
       return result
     }),
-  function: tool.function,
-  type: tool.type,
 })
diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index eecbf71..0fd4ed4 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -94,6 +94,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index a094562..ad92fd6 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -259,6 +259,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From 55362e48c0de64a20c9c8285952c18dc222b62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 11/45] fix: return reasoningText from generateObject as its
 result type promises

---
 packages/generate-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..0dcd6df 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -48,7 +48,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
@@ -64,6 +64,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +78,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From 4b21eb6bade21ba6991e1a3057ad2ca352b1d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 12/45] fix: emit every array element exactly once from
 streamObject's elementStream

---
 .../stream-object/src/utils/to-element-stream.ts   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..943882a 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,17 +9,19 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      const { elements } = data as { elements: T[] }
+      for (; index < elements.length; index++)
+        controller.enqueue(elements[index])
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
+          const { elements } = data as { elements: T[] }
+          // the last element may still be incomplete, it is emitted by a later chunk or by flush
+          for (; index < elements.length - 1; index++)
+            controller.enqueue(elements[index])
         }
       }
       catch {}
-- 
2.43.0


From 5853c76a832eaf023db307cb836fde9fcae8e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 13/45] fix: keep output items of unknown types in the
 responses history instead of sending null

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..5701328 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    default:
+      // items of other types (e.g. provider extensions) must be sent back as they are
+      return item as ItemParam
   }
 }
-- 
2.43.0


From 91b865c0f2916331301ce663432420b5bd084d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 14/45] fix: make strict JSON schemas strict at every depth,
 including the array wrapper of structured output

Only objects reached directly through properties were closed: objects inside
arrays, unions and definitions, and the object that wraps array output,
stayed open although the request announces a strict schema.
---
 packages-top/xsschema/src/json-schema.ts      | 51 ++++++++++++++-----
 packages/generate-object/src/index.ts         |  6 +--
 .../stream-object/src/utils/stream-object.ts  |  6 +--
 3 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index 892778a..8f84825 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -1,19 +1,46 @@
 import type { JsonSchema } from './types'
 
+type Definition = boolean | JsonSchema
+
 export const jsonSchema = (schema: JsonSchema) => schema
 
+const isObject = ({ type }: JsonSchema) =>
+  type === 'object' || (Array.isArray(type) && type.includes('object'))
+
+const mapRecord = (record: Record<string, Definition>) =>
+  // eslint-disable-next-line ts/no-use-before-define
+  Object.fromEntries(Object.entries(record).map(([k, v]) => [k, strictNested(v)]))
+
+/** applies strictness to everything nested in a schema. `allOf` is left alone: closing its members would make them contradict each other. */
+const strictChildren = (schema: JsonSchema): JsonSchema => {
+  const result: Record<string, unknown> & JsonSchema = { ...schema }
+
+  for (const key of ['$defs', 'definitions', 'properties'] as const) {
+    if (result[key] != null)
+      result[key] = mapRecord(result[key] as Record<string, Definition>)
+  }
+
+  for (const key of ['anyOf', 'items', 'oneOf'] as const) {
+    const value = result[key] as Definition | Definition[] | undefined
+    if (value != null)
+      // eslint-disable-next-line ts/no-use-before-define
+      result[key] = (Array.isArray(value) ? value.map(strictNested) : strictNested(value)) as Definition[]
+  }
+
+  return result
+}
+
+const strictNested = (schema: Definition): Definition => {
+  if (schema == null || typeof schema !== 'object')
+    return schema
+
+  const result = strictChildren(schema)
+  return isObject(schema)
+    ? { ...result, additionalProperties: false }
+    : result
+}
+
 export const strictJsonSchema = (schema: JsonSchema): JsonSchema => ({
-  ...schema,
+  ...strictChildren(schema),
   additionalProperties: false,
-  properties: schema.properties != null
-    ? Object.fromEntries(
-        Object.entries(schema.properties)
-          .map(([k, v]) => [
-            k,
-            v != null && typeof v === 'object' && 'type' in v && v.type === 'object'
-              ? strictJsonSchema(v)
-              : v,
-          ]),
-      )
-    : schema.properties,
 })
diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 0dcd6df..78c5c8c 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -26,12 +26,12 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
 export async function generateObject<T extends Schema>(options: GenerateObjectOptions<T> & { output?: GenerateObjectOutputOption }) {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   return generateText({
     ...options,
     output: undefined, // Remove output from options
diff --git a/packages/stream-object/src/utils/stream-object.ts b/packages/stream-object/src/utils/stream-object.ts
index 553ac42..09f014e 100644
--- a/packages/stream-object/src/utils/stream-object.ts
+++ b/packages/stream-object/src/utils/stream-object.ts
@@ -46,12 +46,12 @@ export async function streamObject<T extends Schema>(
 ): Promise<StreamObjectResult<T>> {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   let { textStream, ...rest } = streamText({
     ...options,
     output: undefined,
-- 
2.43.0


From 497e1aadf1dadde9d8d0362239cefdf1c5359616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 15/45] fix: keep schema references valid when array output
 wraps the element schema

---
 packages/generate-object/src/_wrap.ts | 39 ++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/packages/generate-object/src/_wrap.ts b/packages/generate-object/src/_wrap.ts
index b2b7046..fb3e919 100644
--- a/packages/generate-object/src/_wrap.ts
+++ b/packages/generate-object/src/_wrap.ts
@@ -1,12 +1,33 @@
 import type { JsonSchema } from 'xsschema'
 
-export const wrap = (items: JsonSchema): JsonSchema => ({
-  properties: {
-    elements: {
-      items,
-      type: 'array',
+/** references to the schema's own root must follow it to its new place */
+const moveRootRefs = (value: unknown): unknown => {
+  if (Array.isArray(value))
+    return value.map(moveRootRefs)
+
+  if (value == null || typeof value !== 'object')
+    return value
+
+  return Object.fromEntries(Object.entries(value).map(([k, v]) => [
+    k,
+    k === '$ref' && v === '#' ? '#/properties/elements/items' : moveRootRefs(v),
+  ]))
+}
+
+export const wrap = (schema: JsonSchema): JsonSchema => {
+  // definitions are referenced from the root of the document, so they stay there
+  const { $defs, definitions, ...items } = moveRootRefs(schema) as JsonSchema
+
+  return {
+    ...($defs != null && { $defs }),
+    ...(definitions != null && { definitions }),
+    properties: {
+      elements: {
+        items,
+        type: 'array',
+      },
     },
-  },
-  required: ['elements'],
-  type: 'object',
-})
+    required: ['elements'],
+    type: 'object',
+  }
+}
-- 
2.43.0


From 871a20ba7f1dcdb231479ee11a66c0b31352a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 16/45] fix: keep strict schemas whose root only refers to or
 combines others satisfiable

---
 packages-top/xsschema/src/json-schema.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index 8f84825..e273cf4 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -40,7 +40,10 @@ const strictNested = (schema: Definition): Definition => {
     : result
 }
 
-export const strictJsonSchema = (schema: JsonSchema): JsonSchema => ({
-  ...strictChildren(schema),
-  additionalProperties: false,
-})
+export const strictJsonSchema = (schema: JsonSchema): JsonSchema => {
+  const result = strictChildren(schema)
+  // a schema that only refers to or combines others has no properties of its own to close
+  return schema.properties == null && ['$ref', 'allOf', 'anyOf', 'oneOf'].some(key => key in schema)
+    ? result
+    : { ...result, additionalProperties: false }
+}
-- 
2.43.0


From 9a230559a1bdaa9f94eb10149e9869b8cb9b018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 17/45] fix: return embedMany embeddings in input order
 whatever order the server lists them in

---
 packages/embed/src/utils/embed-many.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/embed/src/utils/embed-many.ts b/packages/embed/src/utils/embed-many.ts
index 3c0f71d..c7df445 100644
--- a/packages/embed/src/utils/embed-many.ts
+++ b/packages/embed/src/utils/embed-many.ts
@@ -19,7 +19,8 @@ export const embedMany = async (options: WithUnknown<EmbedManyOptions>): Promise
   postJSON('embeddings', options)
     .then(responseJSON<EmbedResponse>)
     .then(({ data, usage }) => ({
-      embeddings: data.map(data => data.embedding),
+      // servers may list them in any order, `index` tells which input each belongs to
+      embeddings: [...data].sort((a, b) => a.index - b.index).map(data => data.embedding),
       input: options.input,
       usage,
     }))
-- 
2.43.0


From a8f8856d1f08c4ef1e2e5c2f4263408960c03ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 18/45] fix: ask for exactly the given model when its name
 contains URL syntax

---
 packages/model/src/utils/retrieve-model.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/model/src/utils/retrieve-model.ts b/packages/model/src/utils/retrieve-model.ts
index 9dca4ff..140fee5 100644
--- a/packages/model/src/utils/retrieve-model.ts
+++ b/packages/model/src/utils/retrieve-model.ts
@@ -4,8 +4,11 @@ import type { Model } from '../types/model'
 
 import { requestHeaders, requestURL, responseCatch, responseJSON } from '@xsai/shared'
 
+// keeps slashes and colons, but a model name must not become a query, a fragment or another path
+const encodeModel = (model: string) => encodeURI(model).replace(/[#?]/g, encodeURIComponent)
+
 export const retrieveModel = async (options: CommonRequestOptions): Promise<Model> =>
-  (options.fetch ?? globalThis.fetch)(requestURL(`models/${options.model}`, options.baseURL), {
+  (options.fetch ?? globalThis.fetch)(requestURL(`models/${encodeModel(options.model)}`, options.baseURL), {
     headers: requestHeaders(options.headers, options.apiKey),
     signal: options.abortSignal,
   })
-- 
2.43.0


From 4cfe976b9cc151d27dbc0d4276c8b6f6d9309ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 19/45] fix: detect WebP and AVIF images and read images given
 by address where FileReader does not exist

---
 packages/generate-image/src/index.ts | 65 ++++++++++------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..29e96e0 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -56,43 +56,34 @@ export interface GenerateImageResultImage {
 }
 
 /** @internal */
-const mimeTypes = {
-  '/9j/': 'image/jpg',
-  'AAAAIGZ0eXBhdmlm': 'image/avif',
-  'iVBORw0KGgo': 'image/png',
-  'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
-}
+const mimeTypes = [
+  [/^\/9j\//, 'image/jpg'],
+  // the size of the leading `ftyp` box varies
+  [/^AAAA.GZ0eXBhdml[mz]/, 'image/avif'],
+  [/^iVBORw0KGgo/, 'image/png'],
+  [/^R0lGOD/, 'image/gif'],
+  // `RIFF`, file size, `WEBP`
+  [/^UklGR.{6}XRUJQ/, 'image/webp'],
+] as const
 
 /** @internal */
-const convertImage = (b64_json: string) => {
-  const key = Object.keys(mimeTypes).find(prefix => b64_json.startsWith(prefix)) as keyof typeof mimeTypes | undefined
-  const mimeType = mimeTypes[key ?? 'iVBORw0KGgo']
-
-  return {
-    base64: `data:${mimeType};base64,${b64_json}`,
-    mimeType,
-  }
-}
+const convertImage = (b64_json: string, mimeType: string = mimeTypes.find(([signature]) => signature.test(b64_json))?.[1] ?? 'image/png') => ({
+  base64: `data:${mimeType};base64,${b64_json}`,
+  mimeType,
+})
 
 /** @internal */
-const responseBlobAsDataURL = async (res: Response): Promise<string> =>
-  responseCatch(res)
-    .then(async (res) => {
-      const blob = await res.blob()
+const convertImageResponse = async (res: Response) => {
+  const blob = await (await responseCatch(res)).blob()
+  const bytes = new Uint8Array(await blob.arrayBuffer())
 
-      try {
-        return await new Promise<string>((resolve, reject) => {
-          const reader = new FileReader()
-          reader.onloadend = () => resolve(reader.result as string)
-          reader.onerror = reject
-          reader.readAsDataURL(blob)
-        })
-      }
-      catch {
-        throw new Error(`Failed to parse response blob, response URL: ${res.url}`)
-      }
-    })
+  let binary = ''
+  for (const byte of bytes)
+    binary += String.fromCharCode(byte)
+
+  const [mimeType] = blob.type.split(';')
+  return convertImage(btoa(binary), mimeType.startsWith('image/') ? mimeType : undefined)
+}
 
 /** @experimental */
 export const generateImage = async (options: WithUnknown<GenerateImageOptions>): Promise<GenerateImageResult> =>
@@ -109,15 +100,7 @@ export const generateImage = async (options: WithUnknown<GenerateImageOptions>):
             return (options.fetch ?? globalThis.fetch)(new URL(img.url), {
               signal: options.abortSignal,
             })
-              .then(responseBlobAsDataURL)
-              .then((dataURL) => {
-                const sepIndex = dataURL.indexOf(';')
-                const mimeType = dataURL.substring(5, sepIndex) // `data:(...);...`
-                return {
-                  base64: dataURL,
-                  mimeType,
-                }
-              })
+              .then(convertImageResponse)
           }
 
           throw new Error(`Unrecognized image at index ${i}: ${JSON.stringify(img)}`)
-- 
2.43.0


From 2c911698d14736ec384add4546bf9bae41f6a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 20/45] fix: take the tag name of extractReasoning literally

---
 packages/utils-reasoning/src/extract-reasoning.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..090a8f9 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,8 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  const escape = (tag: string) => tag.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
+  const regex = new RegExp(`${escape(startTag)}(.*?)${escape(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From 36da6097d3f9d5c9838b5f116e4488a6aa764c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 21/45] fix: join only non-empty sections in extractReasoning,
 as extractReasoningStream does

---
 packages/utils-reasoning/src/extract-reasoning.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index 090a8f9..76752c1 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -32,7 +32,7 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
     }
   }
 
-  const reasoning = reasonMatches.map(match => match[1]).join(separator)
+  const reasoning = reasonMatches.map(match => match[1]).filter(section => section.length > 0).join(separator)
 
   let startIndex = 0
   const texts = reasonMatches.reduce((acc, match, idx) => {
@@ -42,7 +42,7 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
     startIndex = match.index + match[0].length
 
     // last match
-    if (idx === reasonMatches.length - 1) {
+    if (idx === reasonMatches.length - 1 && startIndex < fullText.length) {
       acc.push(fullText.slice(startIndex))
     }
 
-- 
2.43.0


From f94a93abce322141d7812b58039803451a348548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 22/45] fix: separate a final section that looks like the
 beginning of a tag

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..bc29bb3 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -54,14 +54,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From b7cfec4bc734ec66d2d2a51e27d05c248ddeceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 23/45] fix: keep all text in smoothStream: flush the
 remainder, keep text before a match, stop at empty matches

---
 packages/utils-stream/src/smooth-stream.ts | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..fff6ea6 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -28,17 +28,28 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
 
   let buffer = ''
 
+  // where the next piece of the buffer ends, 0 if none is complete
+  const nextEnd = () => {
+    // patterns may be global or sticky
+    chunkingRegexp.lastIndex = 0
+    const match = chunkingRegexp.exec(buffer)
+    return match === null || match[0].length === 0 ? 0 : match.index + match[0].length
+  }
+
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
-      let match = chunkingRegexp.exec(buffer)
-      while (match !== null) {
-        const result = match[0]
-        controller.enqueue(result)
-        buffer = buffer.slice(result.length)
+      let end = nextEnd()
+      while (end > 0) {
+        controller.enqueue(buffer.slice(0, end))
+        buffer = buffer.slice(end)
 
-        match = chunkingRegexp.exec(buffer)
+        end = nextEnd()
 
         await sleep(delay)
       }
-- 
2.43.0


From fc28a87e079a1a8a570488061f9ec4db0cfcf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 24/45] fix: bound the retries of createFetch whatever is
 passed as options

---
 packages-top/xsfetch/src/index.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..4466f9e 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -17,12 +17,17 @@ const defaults: CreateFetchOptions = {
 }
 
 export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): typeof globalThis.fetch => {
-  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
+  const options: Readonly<CreateFetchOptions> = {
+    debug: userOptions.debug ?? defaults.debug,
+    retry: userOptions.retry ?? defaults.retry,
+    retryDelay: userOptions.retryDelay ?? defaults.retryDelay,
+    retryStatusCodes: userOptions.retryStatusCodes ?? defaults.retryStatusCodes,
+  }
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
     const res = await fetch(input, init)
 
-    if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
+    if (res.ok || !(retriesLeft > 0) || !options.retryStatusCodes.includes(res.status))
       return res
 
     if (options.debug)
-- 
2.43.0


From 121348d0768e7c12ce063bca1950b055a23efee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 25/45] fix: send the body of a Request again when createFetch
 retries it

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 4466f9e..9b63695 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -25,7 +25,8 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   }
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    const res = await fetch(input, init)
+    // the body of a request can only be sent once
+    const res = await fetch(input instanceof Request ? input.clone() : input, init)
 
     if (res.ok || !(retriesLeft > 0) || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From 28f820803a25a5b61aefb93edb0fbb6118cdee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 26/45] fix: keep one stream of extractReasoningStream going
 when the other is cancelled

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index bc29bb3..1c3f19e 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,12 +15,15 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
+  // a stream nobody reads any more must not break the other one
   const reasoningStream = new ReadableStream<string>({
+    cancel: () => reasoningStreamController = undefined,
     start: controller => reasoningStreamController = controller,
   })
   const textStream = new ReadableStream<string>({
+    cancel: () => textStreamController = undefined,
     start: controller => textStreamController = controller,
   })
 
-- 
2.43.0


From ec2eaf15c8d62717fde0a2730d87d00dd599aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 27/45] fix: announce each reasoning text of the responses API
 exactly once, and none for empty items

---
 packages-ext/responses/src/utils/responses.ts | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 8d10a3b..5fe72cb 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -102,6 +102,18 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
     return step
   }
 
+  // a reasoning item holds any number of reasoning texts, often none
+  let reasoningStarted = false
+
+  const startReasoning = (): Event[] => {
+    if (reasoningStarted)
+      return []
+
+    reasoningStarted = true
+
+    return [{ type: 'reasoning.start' }]
+  }
+
   const mapFullEvent = (event: FullEvent): Event[] => {
     // eslint-disable-next-line ts/switch-exhaustiveness-check
     switch (event.type) {
@@ -116,15 +128,14 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
           ? [{ type: 'text.start' }]
           : []
       case 'response.created':
+        reasoningStarted = false
+
         return [{ type: 'step.start' }]
       case 'response.function_call_arguments.delta':
         return [{ delta: event.delta, type: 'tool-call.delta' }]
       case 'response.function_call_arguments.done':
         return []
       case 'response.output_item.added': {
-        if (event.item?.type === 'reasoning')
-          return [{ type: 'reasoning.start' }]
-
         if (event.item?.type === 'function_call') {
           return [{
             toolCallId: event.item.call_id,
@@ -142,10 +153,14 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
         return [{ content: event.text, type: 'text.done' }]
       case 'response.reasoning.delta':
       case 'response.reasoning_summary_text.delta':
-        return [{ delta: event.delta, type: 'reasoning.delta' }]
+        return [...startReasoning(), { delta: event.delta, type: 'reasoning.delta' }]
       case 'response.reasoning.done':
-      case 'response.reasoning_summary_text.done':
-        return [{ content: event.text, type: 'reasoning.done' }]
+      case 'response.reasoning_summary_text.done': {
+        const events: Event[] = [...startReasoning(), { content: event.text, type: 'reasoning.done' }]
+        reasoningStarted = false
+
+        return events
+      }
       case 'response.refusal.done':
         return [{ content: event.refusal, type: 'text.done' }]
       default:
-- 
2.43.0


From ab9d395a324f8ab4e052830ea2db6c84a6785251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 28/45] fix: embed with telemetry when the server reports no
 usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..7f9ddc9 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,11 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // some servers report no usage
+    // eslint-disable-next-line ts/no-unnecessary-condition
+    if (result.usage?.prompt_tokens != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+
     return result
   })
 }
@@ -33,7 +37,11 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // some servers report no usage
+    // eslint-disable-next-line ts/no-unnecessary-condition
+    if (result.usage?.prompt_tokens != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+
     return result
   })
 }
-- 
2.43.0


From f647e684d0c2a3ef102de649363b22df75175b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 29/45] fix: wrap tools for telemetry without failing on values
 JSON cannot express or losing inherited validation

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 9d5b183..fdea1d0 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,13 +3,21 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+// recording must not fail the tool: leave out what JSON cannot express
+const toAttribute = (value: unknown): string | undefined => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {}
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
   ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': toAttribute(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -18,7 +26,9 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttributes({ 'gen_ai.tool.call.result': toAttribute(result) })
       return result
     }),
+  // a tool may be a class instance, whose methods are not copied
+  validate: tool.validate && (async input => tool.validate!(input)),
 })
-- 
2.43.0


From 290490f9c5ed10328cf396f185e17661ebcfb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 30/45] fix: keep the options of one provider call from leaking
 into others

---
 packages-ext/providers/src/utils/create.ts | 27 +++++++++++++---------
 packages-ext/providers/src/utils/merge.ts  |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..97690c1 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,50 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
+// every call gets its own options, so that calls cannot affect each other
+const copy = (options: CreateProviderOptions): CreateProviderOptions => options.headers == null
+  ? { ...options }
+  : { ...options, headers: options.headers instanceof Headers ? new Headers(options.headers) : { ...options.headers } }
+
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign(copy(options), { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign(copy(options), { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign(copy(options), { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign(copy(options), { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign(copy(options), { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => copy(options),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign(copy(options), extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign(copy(options), { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign(copy(options), { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign(copy(options), { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign(copy(options), { model }, extraOptions),
 })
diff --git a/packages-ext/providers/src/utils/merge.ts b/packages-ext/providers/src/utils/merge.ts
index d623af9..c51fae9 100644
--- a/packages-ext/providers/src/utils/merge.ts
+++ b/packages-ext/providers/src/utils/merge.ts
@@ -1,4 +1,4 @@
 import type { UnionToIntersection } from 'type-fest'
 
 export const merge = <T extends object[]>(...arr: T): UnionToIntersection<T[number]> =>
-  Object.assign(arr[0], ...arr.slice(1)) as UnionToIntersection<T[number]>
+  Object.assign({}, ...arr) as UnionToIntersection<T[number]>
-- 
2.43.0


From f33694c7ceb0c142cc4386cf3e30d12575a49539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 31/45] fix: pass openrouter transforms and Headers objects on

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..8bb7fd4 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,9 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
-          requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          requestOptions.headers = extraHeaders instanceof Headers ? new Headers(extraHeaders) : { ...extraHeaders }
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +117,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From b527993a430b323a161b1b513de180beceb55dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 32/45] fix: report failed model lists of together-ai and
 featherless, and keep single models as they are

---
 .../providers/src/manual/providers/featherless.ts     | 11 +++++++++--
 .../providers/src/manual/providers/together-ai.ts     | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..edd3778 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,14 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const data = await res.json() as unknown
+
+        // only the list differs from the standard form
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..7842338 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,14 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const data = await res.json() as unknown
+
+        // only the list differs from the standard form
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
-- 
2.43.0


From 9be8c6bf205d3cb5f6e35acb0c4a19b985238ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 33/45] fix: report failed player2 speech requests

---
 packages-ext/providers/src/special/providers/player2.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From c3e6286b2d36f361f1b19aa87773a61391fe0a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 34/45] fix: keep the caller's Authorization header with azure

---
 .../providers/src/special/providers/azure.ts       | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages-ext/providers/src/special/providers/azure.ts b/packages-ext/providers/src/special/providers/azure.ts
index 3e317a7..fe2de99 100644
--- a/packages-ext/providers/src/special/providers/azure.ts
+++ b/packages-ext/providers/src/special/providers/azure.ts
@@ -75,17 +75,11 @@ export const createAzure = async (options: CreateAzureOptions) => {
     // For the extra steps to obtain the bearer token, please refer to the following links:
     // https://learn.microsoft.com/en-us/azure/api-management/api-management-authenticate-authorize-azure-openai
     // https://learn.microsoft.com/en-us/azure/ai-services/openai/reference#authentication
-    const token = `Bearer ${typeof options.apiKey === 'function' ? await options.apiKey() : options.apiKey}`
+    const headers = new Headers(init.headers)
+    if (!headers.has('Authorization'))
+      headers.set('Authorization', `Bearer ${typeof options.apiKey === 'function' ? await options.apiKey() : options.apiKey}`)
 
-    init.headers ??= {}
-    if (Array.isArray(init.headers))
-      init.headers.push(['Authorization', token])
-    else if (init.headers instanceof Headers)
-      init.headers.append('Authorization', token)
-    else
-      init.headers.Authorization = token
-
-    return globalThis.fetch(input, init)
+    return globalThis.fetch(input, { ...init, headers })
   }
 
   return merge(
-- 
2.43.0


From e2229cd6bbcdd5f8d7aff3812c97c8ad1f81e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 35/45] fix: let a reader of streamObject's text stop without
 waiting for the other stream

---
 .../stream-object/src/utils/stream-object.ts  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/stream-object/src/utils/stream-object.ts b/packages/stream-object/src/utils/stream-object.ts
index 09f014e..37b2278 100644
--- a/packages/stream-object/src/utils/stream-object.ts
+++ b/packages/stream-object/src/utils/stream-object.ts
@@ -11,6 +11,25 @@ import { wrap } from '../../../generate-object/src/_wrap'
 import { toElementStream } from './to-element-stream'
 import { toPartialObjectStream } from './to-partial-object-stream'
 
+// cancelling one branch of a tee waits for the other branch, which may never be read
+const withoutWaiting = <T>(stream: ReadableStream<T>): ReadableStream<T> => {
+  const reader = stream.getReader()
+
+  return new ReadableStream<T>({
+    cancel: (reason) => {
+      void reader.cancel(reason).catch(() => {})
+    },
+    pull: async (controller) => {
+      const { done, value } = await reader.read()
+
+      if (done)
+        controller.close()
+      else
+        controller.enqueue(value)
+    },
+  }, { highWaterMark: 0 })
+}
+
 export interface StreamObjectOnFinishResult<T extends Schema> {
   object?: Schema.InferOutput<T>
 }
@@ -101,7 +120,7 @@ export async function streamObject<T extends Schema>(
   return {
     elementStream,
     partialObjectStream,
-    textStream,
+    textStream: withoutWaiting(textStream),
     ...rest,
   }
 }
-- 
2.43.0


From 607c379b4f3bb8074b8b39b0d125e7b154f6bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 36/45] fix: cancel the reply when the step.start callback
 throws

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++--
 packages/stream-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index ad92fd6..7d0503a 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -112,8 +112,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       let reasoningStarted = false
       let textStarted = false
 
-      pushEvent({ type: 'step.start' })
-
       await stream!
         .pipeThrough(new TextDecoderStream())
         .pipeThrough(new EventSourceParserStream())
@@ -123,6 +121,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
           },
           close: () => {},
+          // a callback that throws here cancels the reply too
+          start: async () => pushEvent({ type: 'step.start' }),
           // eslint-disable-next-line sonarjs/cognitive-complexity
           write: (chunk) => {
             fullCtrl.current?.enqueue(chunk)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index bd552c9..9404c3b 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -139,8 +139,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     let reasoningStarted = false
     let textStarted = false
 
-    pushEvent({ type: 'step.start' })
-
     await stream!
       .pipeThrough(new TextDecoderStream())
       .pipeThrough(new EventSourceParserStream())
@@ -150,6 +148,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
         },
         close: () => {},
+        // a callback that throws here cancels the reply too
+        start: async () => pushEvent({ type: 'step.start' }),
         // eslint-disable-next-line sonarjs/cognitive-complexity
         write: (chunk) => {
           fullCtrl.current?.enqueue(chunk)
-- 
2.43.0


From 90d3694a2dab400aa48c0993f844e21c41b5ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 37/45] fix: cancel the reply when a responses step ends before
 it does

---
 packages-ext/responses/src/utils/responses.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 5fe72cb..c5fafcd 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -289,8 +289,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   // eslint-disable-next-line sonarjs/cognitive-complexity
-  const doStream = async () => {
-    const reader = await createReader()
+  const readStep = async (reader: Awaited<ReturnType<typeof createReader>>) => {
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
     const toolResults: CompletionToolResult[] = []
@@ -370,10 +369,20 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       pushStreamingEvent(event)
       pushEvents(events)
 
-      if (shouldContinue) {
-        reader.releaseLock()
+      if (shouldContinue)
         return async () => doStream()
-      }
+    }
+  }
+
+  const doStream = async () => {
+    const reader = await createReader()
+
+    try {
+      return await readStep(reader)
+    }
+    finally {
+      // however the step ends, its reply must not stay open
+      void reader.cancel().catch(() => {})
     }
   }
 
-- 
2.43.0


From 8eb81329596e1c8645f42787d2a317c4ee8d69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 38/45] fix: release the body of a reply that is retried

---
 packages-top/xsfetch/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 9b63695..6e3692a 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -34,6 +34,9 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
     if (options.debug)
       console.warn('[xsfetch] Failed, retrying... Times left:', retriesLeft)
 
+    // an unread body would keep its connection
+    void res.body?.cancel().catch(() => {})
+
     await sleep(options.retryDelay)
     return async () => xsfetch(retriesLeft - 1, input, init)
   }
-- 
2.43.0


From cc4a303e52c86b07538728f76364cabf39fe276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 39/45] fix: a streaming call that fails with null or undefined
 fails

An error may be any value: an abort reason of null, Promise.reject() in a
callback or in the transport. Such a failure was taken for a success.
---
 packages-ext/responses/src/utils/responses.ts     | 6 +++++-
 packages-ext/telemetry/src/wrapped/stream-text.ts | 6 +++++-
 packages/stream-text/src/index.ts                 | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index c5fafcd..cdbe93b 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -388,11 +388,13 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
 
   void (async () => {
     let finalError: unknown
+    let failed = false
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
 
@@ -400,10 +402,12 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
+      failed = true
       finalError ??= err
     }
 
-    if (finalError != null) {
+    // an error may be `null` or `undefined`, for example an abort reason
+    if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
       resultInput.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 7d0503a..99b800f 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -300,21 +300,25 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
 
   void (async () => {
     let finalError: unknown
+    let failed = false
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
+      failed = true
       finalError ??= err
     }
 
-    if (finalError != null) {
+    // an error may be `null` or `undefined`, for example an abort reason
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 9404c3b..61af005 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -311,21 +311,25 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
 
   void (async () => {
     let finalError: unknown
+    let failed = false
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
+      failed = true
       finalError ??= err
     }
 
-    if (finalError != null) {
+    // an error may be `null` or `undefined`, for example an abort reason
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
-- 
2.43.0


From 58a40b4501728eb5581db01d8d963f4755626deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 40/45] fix: the instrumented streamText sends an empty tool
 list as given

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 99b800f..f7fe7e1 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -53,9 +53,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     const stepOptions = await resolvePrepareStep({
-- 
2.43.0


From c1c4c8e4781f864ed4705e7d53981ac8f3c8e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 41/45] fix: a reply without usage must not fail a
 non-streaming generation

generateText, with and without telemetry, read the token counts of a missing
usage object and rejected with a TypeError, while streamText reports none.
---
 .../telemetry/src/wrapped/generate-text.ts    | 15 +++++++------
 packages/generate-text/src/index.ts           | 21 ++++++++++---------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 0fd4ed4..a133408 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -20,7 +20,7 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
     const messages: Message[] = options.steps == null
       ? structuredClone(options.messages)
       : options.messages
-    const steps: CompletionStep<true>[] = options.steps ?? []
+    const steps: CompletionStep[] = options.steps ?? []
     const stepOptions = await resolvePrepareStep({
       input: messages,
       model: options.model,
@@ -58,8 +58,9 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+          // some servers report no usage
+          const usage = res.usage != null ? normalizeChatCompletionUsage(res.usage) : undefined
+          const totalUsage = usage != null ? computeTotalUsage(options.totalUsage, usage) : options.totalUsage
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
@@ -70,7 +71,7 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
           messages.push(message)
           span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-          const step: CompletionStep<true> = {
+          const step: CompletionStep = {
             finishReason,
             text: Array.isArray(message.content)
               ? message.content.filter(m => m.type === 'text').map(m => m.text).join('\n')
@@ -120,8 +121,10 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
           // TODO: metrics counter
           span.setAttributes({
             'gen_ai.response.finish_reasons': [step.finishReason],
-            'gen_ai.usage.input_tokens': step.usage.inputTokens,
-            'gen_ai.usage.output_tokens': step.usage.outputTokens,
+            ...step.usage && {
+              'gen_ai.usage.input_tokens': step.usage.inputTokens,
+              'gen_ai.usage.output_tokens': step.usage.outputTokens,
+            },
           })
 
           if (options.onStepFinish)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index bbbf039..affef88 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -19,12 +19,12 @@ import { InvalidResponseError, responseJSON, trampoline } from '@xsai/shared'
 import { chat, computeTotalUsage, executeTool, normalizeChatCompletionUsage, resolvePrepareStep, shouldStop, stepCountAtLeast, toCompletionToolCall } from '@xsai/shared-chat'
 
 export interface GenerateTextOptions extends ChatOptions {
-  onStepFinish?: (step: CompletionStep<true>) => Promise<unknown> | unknown
+  onStepFinish?: (step: CompletionStep) => Promise<unknown> | unknown
   postToolCall?: PostToolCall
   prepareStep?: PrepareStep
   preToolCall?: PreToolCall
   /** @internal */
-  steps?: CompletionStep<true>[]
+  steps?: CompletionStep[]
   /** @default `stepCountAtLeast(1)` */
   stopWhen?: StopCondition<Message>
   /** if you want to enable stream, use `@xsai/stream-{text,object}` */
@@ -45,19 +45,19 @@ export interface GenerateTextResponse {
   model: string
   object: 'chat.completion'
   system_fingerprint: string
-  usage: ChatCompletionUsage
+  usage?: ChatCompletionUsage
 }
 
 export interface GenerateTextResult {
   finishReason: FinishReason
   messages: Message[]
   reasoningText?: string
-  steps: CompletionStep<true>[]
+  steps: CompletionStep[]
   text?: string
   toolCalls: CompletionToolCall[]
   toolResults: CompletionToolResult[]
-  totalUsage: Usage
-  usage: Usage
+  totalUsage?: Usage
+  usage?: Usage
 }
 
 /** @internal */
@@ -65,7 +65,7 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
   const messages: Message[] = options.steps == null
     ? structuredClone(options.messages)
     : options.messages
-  const steps: CompletionStep<true>[] = options.steps ?? []
+  const steps: CompletionStep[] = options.steps ?? []
   const stepOptions = await resolvePrepareStep({
     input: messages,
     model: options.model,
@@ -96,8 +96,9 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+      // some servers report no usage
+      const usage = res.usage != null ? normalizeChatCompletionUsage(res.usage) : undefined
+      const totalUsage = usage != null ? computeTotalUsage(options.totalUsage, usage) : options.totalUsage
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
@@ -107,7 +108,7 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
 
       messages.push(message)
 
-      const step: CompletionStep<true> = {
+      const step: CompletionStep = {
         finishReason,
         text: Array.isArray(message.content)
           ? message.content.filter(m => m.type === 'text').map(m => m.text).join('\n')
-- 
2.43.0


From 4233a0280edeb97e269f3d5e7b9c0012535956a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 42/45] fix: the usage of a streaming call is that of its final
 step

A final step without usage left the usage of an earlier step in place, unlike
generateText and the documentation of usage.
---
 packages-ext/responses/src/utils/responses.ts     | 8 +++-----
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 ++---
 packages/stream-text/src/index.ts                 | 5 ++---
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index cdbe93b..57b2758 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -83,11 +83,9 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   const pushUsage = (nextUsage?: NonNullable<ResponseResource['usage']>) => {
-    if (nextUsage == null)
-      return
-
-    usage = normalizeUsage(nextUsage)
-    totalUsage = computeTotalUsage(totalUsage, usage)
+    usage = nextUsage != null ? normalizeUsage(nextUsage) : undefined
+    if (usage != null)
+      totalUsage = computeTotalUsage(totalUsage, usage)
   }
 
   const pushResponseStep = (response: ResponseResource, stepOptions: {
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index f7fe7e1..59ad45c 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -234,10 +234,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       for (const toolCall of toolCalls)
         pushEvent({ ...toolCall, type: 'tool-call.done' })
 
-      if (stepUsage != null) {
-        usage = stepUsage
+      usage = stepUsage
+      if (stepUsage != null)
         totalUsage = computeTotalUsage(totalUsage, stepUsage)
-      }
 
       const step: CompletionStep = {
         finishReason,
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 61af005..83038bc 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -257,10 +257,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     for (const toolCall of toolCalls)
       pushEvent({ ...toolCall, type: 'tool-call.done' })
 
-    if (stepUsage != null) {
-      usage = stepUsage
+    usage = stepUsage
+    if (stepUsage != null)
       totalUsage = computeTotalUsage(totalUsage, stepUsage)
-    }
 
     const step: CompletionStep = {
       finishReason,
-- 
2.43.0


From d230304b75ebb7b9ba30a3100cca6ef03b7bf175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 43/45] fix: give no partial object before any text of a
 streamed object has arrived

---
 packages/stream-object/src/utils/to-partial-object-stream.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index 34da6f4..e622d2c 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -9,6 +9,10 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
   return stream.pipeThrough(new TransformStream<string, PartialDeep<T>>({
     transform: (chunk, controller) => {
       partialObjectData += chunk
+      // the parser reads no text at all as an empty string
+      if (partialObjectData === '')
+        return
+
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
 
-- 
2.43.0


From 8c6f4c817b878ca8b912dda0617dc676afe00627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 44/45] fix: references inside a schema follow it into the list
 of elements

---
 packages/generate-object/src/_wrap.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/generate-object/src/_wrap.ts b/packages/generate-object/src/_wrap.ts
index fb3e919..7daa511 100644
--- a/packages/generate-object/src/_wrap.ts
+++ b/packages/generate-object/src/_wrap.ts
@@ -1,6 +1,10 @@
 import type { JsonSchema } from 'xsschema'
 
-/** references to the schema's own root must follow it to its new place */
+/** only the definitions stay where they are */
+const isMoved = (ref: unknown): ref is string =>
+  typeof ref === 'string' && (ref === '#' || (ref.startsWith('#/') && !ref.startsWith('#/$defs/') && !ref.startsWith('#/definitions/')))
+
+/** references to the schema's own root, or to a place below it, must follow it to its new place */
 const moveRootRefs = (value: unknown): unknown => {
   if (Array.isArray(value))
     return value.map(moveRootRefs)
@@ -10,7 +14,7 @@ const moveRootRefs = (value: unknown): unknown => {
 
   return Object.fromEntries(Object.entries(value).map(([k, v]) => [
     k,
-    k === '$ref' && v === '#' ? '#/properties/elements/items' : moveRootRefs(v),
+    k === '$ref' && isMoved(v) ? `#/properties/elements/items${v.slice(1)}` : moveRootRefs(v),
   ]))
 }
 
-- 
2.43.0


From 6a1efe71aa114c893774e378e20d91b7812b4641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 45/45] fix: deliver list elements and partial objects when a
 chunk ends inside a unicode escape

---
 packages/stream-object/src/utils/parse-partial.ts            | 5 +++++
 packages/stream-object/src/utils/to-element-stream.ts        | 4 +++-
 packages/stream-object/src/utils/to-partial-object-stream.ts | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)
 create mode 100644 packages/stream-object/src/utils/parse-partial.ts

diff --git a/packages/stream-object/src/utils/parse-partial.ts b/packages/stream-object/src/utils/parse-partial.ts
new file mode 100644
index 0000000..e492316
--- /dev/null
+++ b/packages/stream-object/src/utils/parse-partial.ts
@@ -0,0 +1,5 @@
+import { parse } from 'best-effort-json-parser'
+
+/** parses JSON text that may end anywhere, also inside of a `\uXXXX` escape, which the parser does not accept */
+export const parsePartial = (text: string): unknown =>
+  parse(text.replace(/(?<=(?:^|[^\\])(?:\\\\)*)\\u[\da-f]{0,3}$/i, ''))
diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index 943882a..718e4a7 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -2,6 +2,8 @@ import type { PartialDeep } from '../types/partial-deep'
 
 import { parse } from 'best-effort-json-parser'
 
+import { parsePartial } from './parse-partial'
+
 export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStream<T> => {
   let partialObjectData = ''
   let index = 0
@@ -16,7 +18,7 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
-        const data = parse(partialObjectData) as PartialDeep<T>
+        const data = parsePartial(partialObjectData) as PartialDeep<T>
         if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
           const { elements } = data as { elements: T[] }
           // the last element may still be incomplete, it is emitted by a later chunk or by flush
diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index e622d2c..5370ea0 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -1,6 +1,6 @@
 import type { PartialDeep } from '../types/partial-deep'
 
-import { parse } from 'best-effort-json-parser'
+import { parsePartial } from './parse-partial'
 
 export const toPartialObjectStream = <T>(stream: ReadableStream<string>): ReadableStream<PartialDeep<T>> => {
   let partialObjectData = ''
@@ -14,7 +14,7 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
         return
 
       try {
-        const data = parse(partialObjectData) as PartialDeep<T>
+        const data = parsePartial(partialObjectData) as PartialDeep<T>
 
         if (JSON.stringify(partialObjectSnapshot) !== JSON.stringify(data)) {
           partialObjectSnapshot = data
-- 
2.43.0

