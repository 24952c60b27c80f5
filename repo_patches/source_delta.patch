From a566243e0caf2240a8a8f2c8ff92f05f19e55da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 01/13] fix: treat non-object JSON error bodies as unparseable

A non-2xx response whose body is JSON null, 0, false or an empty string made
the result carry neither data nor an error; other scalars and arrays produced
an error without name, message or status.
---
 src/resend.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..008ef9f 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,14 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (
+            typeof parsedError !== 'object' ||
+            parsedError === null ||
+            Array.isArray(parsedError)
+          ) {
+            throw new SyntaxError('Error response body is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 901ea0b90a5af769871e7281c1fe005416c2dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 02/13] fix: keep Headers instances and tuple lists passed to
 batch sends

Spreading options.headers only works for plain objects: a Headers instance or
an array of pairs was dropped (or turned into numeric keys) before it reached
the request.
---
 src/batch/batch.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..ff60f86 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -34,16 +34,16 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
+    const headers = new Headers(options?.headers);
+
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
-      {
-        ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
-      },
+      { ...options, headers },
     );
 
     return data;
-- 
2.43.0


From 5ee92deb892007a5a228c1c9160e4f8369a111f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 03/13] fix: do not modify the caller's emails in batch sends

Rendering a react email overwrote html and cleared react on the object the
caller passed in, so sending the same payload again reused stale html.
---
 src/batch/batch.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index ff60f86..183686b 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,7 +25,9 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
-    for (const email of payload) {
+    for (const entry of payload) {
+      const email = { ...entry };
+
       if (email.react) {
         email.html = await render(email.react);
         email.react = undefined;
-- 
2.43.0


From 0e4b5e7510a22c3391cecdfea3bc1cd4686925bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 04/13] fix: capture payload and options before rendering react
 content

Broadcasts and batch sends read the remaining payload fields, and email,
batch and broadcast sends read the request options, after awaiting the render,
so an object reused for the next call leaked into the one still in flight.
---
 src/batch/batch.ts           | 14 +++++---
 src/broadcasts/broadcasts.ts | 67 ++++++++++++++++++++----------------
 src/emails/emails.ts         |  3 +-
 3 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 183686b..f794410 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,9 +25,10 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
-    for (const entry of payload) {
-      const email = { ...entry };
+    const entries = payload.map((email) => ({ ...email }));
+    const requestOptions = { ...options };
 
+    for (const email of entries) {
       if (email.react) {
         email.html = await render(email.react);
         email.react = undefined;
@@ -36,16 +37,19 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
-    const headers = new Headers(options?.headers);
+    const headers = new Headers(requestOptions.headers);
 
     if (!headers.has('x-batch-validation')) {
-      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+      headers.set(
+        'x-batch-validation',
+        requestOptions.batchValidation ?? 'strict',
+      );
     }
 
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
-      { ...options, headers },
+      { ...requestOptions, headers },
     );
 
     return data;
diff --git a/src/broadcasts/broadcasts.ts b/src/broadcasts/broadcasts.ts
index 4d8c2bd..2e2cd7f 100644
--- a/src/broadcasts/broadcasts.ts
+++ b/src/broadcasts/broadcasts.ts
@@ -54,25 +54,30 @@ export class Broadcasts {
     payload: CreateBroadcastOptions,
     options: CreateBroadcastRequestOptions = {},
   ): Promise<SendBroadcastResponse> {
-    const html = payload.react ? await render(payload.react) : payload.html;
+    const body = {
+      name: payload.name,
+      segment_id: payload.segmentId,
+      audience_id: payload.audienceId,
+      preview_text: payload.previewText,
+      from: payload.from,
+      html: payload.html,
+      reply_to: payload.replyTo,
+      subject: payload.subject,
+      text: payload.text,
+      topic_id: payload.topicId,
+      send: payload.send,
+      scheduled_at: payload.scheduledAt,
+    };
+    const requestOptions = { ...options };
+
+    if (payload.react) {
+      body.html = await render(payload.react);
+    }
 
     const data = await this.resend.post<SendBroadcastResponseSuccess>(
       '/broadcasts',
-      {
-        name: payload.name,
-        segment_id: payload.segmentId,
-        audience_id: payload.audienceId,
-        preview_text: payload.previewText,
-        from: payload.from,
-        html,
-        reply_to: payload.replyTo,
-        subject: payload.subject,
-        text: payload.text,
-        topic_id: payload.topicId,
-        send: payload.send,
-        scheduled_at: payload.scheduledAt,
-      },
-      options,
+      body,
+      requestOptions,
     );
 
     return data;
@@ -149,22 +154,26 @@ export class Broadcasts {
     id: string,
     payload: UpdateBroadcastOptions,
   ): Promise<UpdateBroadcastResponse> {
-    const html = payload.react ? await render(payload.react) : payload.html;
+    const body = {
+      name: payload.name,
+      segment_id: payload.segmentId,
+      audience_id: payload.audienceId,
+      from: payload.from,
+      html: payload.html,
+      text: payload.text,
+      subject: payload.subject,
+      reply_to: payload.replyTo,
+      preview_text: payload.previewText,
+      topic_id: payload.topicId,
+    };
+
+    if (payload.react) {
+      body.html = await render(payload.react);
+    }
 
     const data = await this.resend.patch<UpdateBroadcastResponseSuccess>(
       `/broadcasts/${id}`,
-      {
-        name: payload.name,
-        segment_id: payload.segmentId,
-        audience_id: payload.audienceId,
-        from: payload.from,
-        html,
-        text: payload.text,
-        subject: payload.subject,
-        reply_to: payload.replyTo,
-        preview_text: payload.previewText,
-        topic_id: payload.topicId,
-      },
+      body,
     );
     return data;
   }
diff --git a/src/emails/emails.ts b/src/emails/emails.ts
index ad6141c..7e786b6 100644
--- a/src/emails/emails.ts
+++ b/src/emails/emails.ts
@@ -60,6 +60,7 @@ export class Emails {
     options: CreateEmailRequestOptions = {},
   ): Promise<CreateEmailResponse> {
     const body: CreateEmailOptions = { ...payload };
+    const requestOptions = { ...options };
 
     if (payload.react) {
       body.html = await render(payload.react);
@@ -68,7 +69,7 @@ export class Emails {
     const data = await this.resend.post<CreateEmailResponseSuccess>(
       '/emails',
       parseEmailToApiOptions(body),
-      options,
+      requestOptions,
     );
 
     return data;
-- 
2.43.0


From 7684db994fd1ea759e52a38b0ac190a8115121b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 05/13] fix: report raw email download and parse failures of
 forwards as errors

A failed download connection, an interrupted download body or a message the
MIME parser rejects made emails.receiving.forward reject instead of returning
an error like every other failure.
---
 src/emails/receiving/receiving.ts | 44 ++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..efd538a 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -125,7 +125,7 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const rawResponse = await downloadRawEmail(email.raw.download_url);
 
     if (!rawResponse.ok) {
       return {
@@ -139,11 +139,21 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
-    const parsed = await PostalMime.parse(rawEmailContent, {
+    const parsed = await PostalMime.parse(rawResponse.content, {
       attachmentEncoding: 'base64',
-    });
+    }).catch(() => null);
+
+    if (!parsed) {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to parse raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
 
     const attachments = parsed.attachments.map((attachment) => {
       const contentId = attachment.contentId
@@ -199,7 +209,7 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const rawResponse = await downloadRawEmail(email.raw.download_url);
 
     if (!rawResponse.ok) {
       return {
@@ -213,8 +223,6 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
@@ -226,7 +234,7 @@ export class Receiving {
         attachments: [
           {
             filename: 'forwarded_message.eml',
-            content: Buffer.from(rawEmailContent).toString('base64'),
+            content: Buffer.from(rawResponse.content).toString('base64'),
             content_type: 'message/rfc822',
           },
         ],
@@ -237,3 +245,21 @@ export class Receiving {
     return data;
   }
 }
+
+async function downloadRawEmail(
+  url: string,
+): Promise<
+  { ok: true; content: string } | { ok: false; status: number | null }
+> {
+  try {
+    const response = await fetch(url);
+
+    if (!response.ok) {
+      return { ok: false, status: response.status };
+    }
+
+    return { ok: true, content: await response.text() };
+  } catch {
+    return { ok: false, status: null };
+  }
+}
-- 
2.43.0


From a67a032bc1d716de189e9d27971901f094e9c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 06/13] fix: forward received emails without re-encoding the
 raw message

Reading the raw message as text replaced every byte that is not valid UTF-8,
corrupting 8-bit parts in passthrough forwards and the attached .eml file.
---
 src/emails/receiving/receiving.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index efd538a..07d2a8a 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -249,7 +249,7 @@ export class Receiving {
 async function downloadRawEmail(
   url: string,
 ): Promise<
-  { ok: true; content: string } | { ok: false; status: number | null }
+  { ok: true; content: ArrayBuffer } | { ok: false; status: number | null }
 > {
   try {
     const response = await fetch(url);
@@ -258,7 +258,7 @@ async function downloadRawEmail(
       return { ok: false, status: response.status };
     }
 
-    return { ok: true, content: await response.text() };
+    return { ok: true, content: await response.arrayBuffer() };
   } catch {
     return { ok: false, status: null };
   }
-- 
2.43.0


From dbebaab5f26302143f0c3faa9dcb83f26bd80ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 07/13] fix: capture forward options before fetching the
 received email

The note text and html and the idempotency key and headers were read only
after the message had been fetched and downloaded.
---
 src/emails/receiving/receiving.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 07d2a8a..ac58376 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -62,6 +62,9 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { emailId, to, from } = options;
     const passthrough = options.passthrough !== false;
+    const text = 'text' in options ? options.text : undefined;
+    const html = 'html' in options ? options.html : undefined;
+    const postOptions = { ...requestOptions };
 
     const emailResponse = await this.get(emailId);
 
@@ -85,7 +88,7 @@ export class Receiving {
           from,
           subject: originalSubject,
         },
-        requestOptions,
+        postOptions,
       );
     }
 
@@ -99,10 +102,10 @@ export class Receiving {
         to,
         from,
         subject: forwardSubject,
-        text: 'text' in options ? options.text : undefined,
-        html: 'html' in options ? options.html : undefined,
+        text,
+        html,
       },
-      requestOptions,
+      postOptions,
     );
   }
 
-- 
2.43.0


From 3a069decacf715ae156764a692a4668d516deaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 08/13] fix: keep identifiers inside their path segment

Identifiers were interpolated into request paths as is (except for events and
suppressions), so an id or email containing '/', '?', '#' or '%' addressed a
different endpoint or resource, e.g. contacts.remove('a#b@x.com') deleted
/contacts/a.
---
 src/api-keys/api-keys.ts                      |  5 ++--
 src/automation-runs/automation-runs.ts        |  7 +++--
 src/automations/automations.ts                | 11 ++++----
 src/broadcasts/broadcasts.ts                  | 18 +++++++-----
 src/common/utils/encode-path-segment.ts       |  7 +++++
 src/contact-properties/contact-properties.ts  |  7 +++--
 src/contacts/contacts.ts                      | 28 +++++++++++--------
 src/contacts/imports/contact-imports.ts       |  3 +-
 src/contacts/segments/contact-segments.ts     | 10 +++++--
 src/contacts/topics/contact-topics.ts         |  8 ++++--
 src/domains/claims/domain-claims.ts           |  5 ++--
 src/domains/domains.ts                        |  9 +++---
 src/emails/attachments/attachments.ts         |  8 ++++--
 src/emails/emails.ts                          |  9 +++---
 .../receiving/attachments/attachments.ts      |  5 ++--
 src/emails/receiving/receiving.ts             |  5 ++--
 src/logs/logs.ts                              |  5 +++-
 src/oauth-grants/oauth-grants.ts              |  3 +-
 src/segments/segments.ts                      |  5 ++--
 src/templates/templates.ts                    | 11 ++++----
 src/topics/topics.ts                          |  7 +++--
 src/webhooks/webhooks.ts                      |  7 +++--
 22 files changed, 114 insertions(+), 69 deletions(-)
 create mode 100644 src/common/utils/encode-path-segment.ts

diff --git a/src/api-keys/api-keys.ts b/src/api-keys/api-keys.ts
index ed7d64c..20c90e2 100644
--- a/src/api-keys/api-keys.ts
+++ b/src/api-keys/api-keys.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   CreateApiKeyOptions,
@@ -49,7 +50,7 @@ export class ApiKeys {
     payload: UpdateApiKeyOptions,
   ): Promise<UpdateApiKeyResponse> {
     const data = await this.resend.patch<UpdateApiKeyResponseSuccess>(
-      `/api-keys/${id}`,
+      `/api-keys/${encodePathSegment(id)}`,
       payload,
     );
     return data;
@@ -57,7 +58,7 @@ export class ApiKeys {
 
   async remove(id: string): Promise<RemoveApiKeyResponse> {
     const data = await this.resend.delete<RemoveApiKeyResponseSuccess>(
-      `/api-keys/${id}`,
+      `/api-keys/${encodePathSegment(id)}`,
     );
     return data;
   }
diff --git a/src/automation-runs/automation-runs.ts b/src/automation-runs/automation-runs.ts
index 9a50413..c13c1dc 100644
--- a/src/automation-runs/automation-runs.ts
+++ b/src/automation-runs/automation-runs.ts
@@ -1,4 +1,5 @@
 import { buildPaginationQuery } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   GetAutomationRunOptions,
@@ -18,7 +19,7 @@ export class AutomationRuns {
     options: GetAutomationRunOptions,
   ): Promise<GetAutomationRunResponse> {
     const data = await this.resend.get<GetAutomationRunResponseSuccess>(
-      `/automations/${options.automationId}/runs/${options.runId}`,
+      `/automations/${encodePathSegment(options.automationId)}/runs/${encodePathSegment(options.runId)}`,
     );
     return data;
   }
@@ -38,8 +39,8 @@ export class AutomationRuns {
 
     const qs = searchParams.toString();
     const url = qs
-      ? `/automations/${options.automationId}/runs?${qs}`
-      : `/automations/${options.automationId}/runs`;
+      ? `/automations/${encodePathSegment(options.automationId)}/runs?${qs}`
+      : `/automations/${encodePathSegment(options.automationId)}/runs`;
 
     const data = await this.resend.get<ListAutomationRunsResponseSuccess>(url);
     return data;
diff --git a/src/automations/automations.ts b/src/automations/automations.ts
index c6b3e41..a07315d 100644
--- a/src/automations/automations.ts
+++ b/src/automations/automations.ts
@@ -1,5 +1,6 @@
 import { AutomationRuns } from '../automation-runs/automation-runs';
 import { buildPaginationQuery } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import {
   parseAutomationToApiOptions,
   parseConnection,
@@ -75,14 +76,14 @@ export class Automations {
 
   async get(id: string): Promise<GetAutomationResponse> {
     const data = await this.resend.get<GetAutomationResponseSuccess>(
-      `/automations/${id}`,
+      `/automations/${encodePathSegment(id)}`,
     );
     return data;
   }
 
   async remove(id: string): Promise<RemoveAutomationResponse> {
     const data = await this.resend.delete<RemoveAutomationResponseSuccess>(
-      `/automations/${id}`,
+      `/automations/${encodePathSegment(id)}`,
     );
     return data;
   }
@@ -107,7 +108,7 @@ export class Automations {
     }
 
     const data = await this.resend.patch<UpdateAutomationResponseSuccess>(
-      `/automations/${id}`,
+      `/automations/${encodePathSegment(id)}`,
       apiPayload,
     );
     return data;
@@ -115,14 +116,14 @@ export class Automations {
 
   async duplicate(id: string): Promise<DuplicateAutomationResponse> {
     const data = await this.resend.post<DuplicateAutomationResponseSuccess>(
-      `/automations/${id}/duplicate`,
+      `/automations/${encodePathSegment(id)}/duplicate`,
     );
     return data;
   }
 
   async stop(id: string): Promise<StopAutomationResponse> {
     const data = await this.resend.post<StopAutomationResponseSuccess>(
-      `/automations/${id}/stop`,
+      `/automations/${encodePathSegment(id)}/stop`,
     );
     return data;
   }
diff --git a/src/broadcasts/broadcasts.ts b/src/broadcasts/broadcasts.ts
index 2e2cd7f..2f2eded 100644
--- a/src/broadcasts/broadcasts.ts
+++ b/src/broadcasts/broadcasts.ts
@@ -2,6 +2,7 @@ import {
   buildPaginationQuery,
   buildPaginationUrl,
 } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { render } from '../render';
 import type { Resend } from '../resend';
 import type {
@@ -88,7 +89,7 @@ export class Broadcasts {
     payload?: SendBroadcastOptions,
   ): Promise<SendBroadcastResponse> {
     const data = await this.resend.post<SendBroadcastResponseSuccess>(
-      `/broadcasts/${id}/send`,
+      `/broadcasts/${encodePathSegment(id)}/send`,
       { scheduled_at: payload?.scheduledAt },
     );
 
@@ -106,7 +107,7 @@ export class Broadcasts {
 
   async get(id: string): Promise<GetBroadcastResponse> {
     const data = await this.resend.get<GetBroadcastResponseSuccess>(
-      `/broadcasts/${id}`,
+      `/broadcasts/${encodePathSegment(id)}`,
     );
     return data;
   }
@@ -118,7 +119,7 @@ export class Broadcasts {
     const queryString = buildRecipientsQuery(
       options as ListBroadcastRecipientsOptions,
     );
-    const url = `/broadcasts/${id}/recipients?${queryString}`;
+    const url = `/broadcasts/${encodePathSegment(id)}/recipients?${queryString}`;
 
     const data =
       await this.resend.get<ListBroadcastRecipientsResponseSuccess<T>>(url);
@@ -129,7 +130,10 @@ export class Broadcasts {
     id: string,
     options: ListBroadcastClickedLinksOptions = {},
   ): Promise<ListBroadcastClickedLinksResponse> {
-    const url = buildPaginationUrl(`/broadcasts/${id}/clicked-links`, options);
+    const url = buildPaginationUrl(
+      `/broadcasts/${encodePathSegment(id)}/clicked-links`,
+      options,
+    );
 
     const data =
       await this.resend.get<ListBroadcastClickedLinksResponseSuccess>(url);
@@ -138,14 +142,14 @@ export class Broadcasts {
 
   async remove(id: string): Promise<RemoveBroadcastResponse> {
     const data = await this.resend.delete<RemoveBroadcastResponseSuccess>(
-      `/broadcasts/${id}`,
+      `/broadcasts/${encodePathSegment(id)}`,
     );
     return data;
   }
 
   async cancel(id: string): Promise<CancelBroadcastResponse> {
     const data = await this.resend.post<CancelBroadcastResponseSuccess>(
-      `/broadcasts/${id}/cancel`,
+      `/broadcasts/${encodePathSegment(id)}/cancel`,
     );
     return data;
   }
@@ -172,7 +176,7 @@ export class Broadcasts {
     }
 
     const data = await this.resend.patch<UpdateBroadcastResponseSuccess>(
-      `/broadcasts/${id}`,
+      `/broadcasts/${encodePathSegment(id)}`,
       body,
     );
     return data;
diff --git a/src/common/utils/encode-path-segment.ts b/src/common/utils/encode-path-segment.ts
new file mode 100644
index 0000000..6009ce8
--- /dev/null
+++ b/src/common/utils/encode-path-segment.ts
@@ -0,0 +1,7 @@
+/**
+ * Encodes an identifier so that it stays within one segment of a request path.
+ * `@` is legal in a segment and is kept as is, so emails stay readable.
+ */
+export function encodePathSegment(value: unknown): string {
+  return encodeURIComponent(String(value)).replace(/%40/g, '@');
+}
diff --git a/src/contact-properties/contact-properties.ts b/src/contact-properties/contact-properties.ts
index 2c56e05..72f583c 100644
--- a/src/contact-properties/contact-properties.ts
+++ b/src/contact-properties/contact-properties.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import {
   parseContactPropertyFromApi,
   parseContactPropertyToApiOptions,
@@ -79,7 +80,7 @@ export class ContactProperties {
       };
     }
     const response = await this.resend.get<GetContactPropertyResponseSuccess>(
-      `/contact-properties/${id}`,
+      `/contact-properties/${encodePathSegment(id)}`,
     );
 
     if (response.data) {
@@ -113,7 +114,7 @@ export class ContactProperties {
 
     const apiOptions = parseContactPropertyToApiOptions(payload);
     const data = await this.resend.patch<UpdateContactPropertyResponseSuccess>(
-      `/contact-properties/${payload.id}`,
+      `/contact-properties/${encodePathSegment(payload.id)}`,
       apiOptions,
     );
     return data;
@@ -132,7 +133,7 @@ export class ContactProperties {
       };
     }
     const data = await this.resend.delete<RemoveContactPropertyResponseSuccess>(
-      `/contact-properties/${id}`,
+      `/contact-properties/${encodePathSegment(id)}`,
     );
     return data;
   }
diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..81dc6af 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import { ContactImports } from './imports/contact-imports';
 import type {
@@ -71,7 +72,7 @@ export class Contacts {
       }
 
       const data = await this.resend.post<CreateContactResponseSuccess>(
-        `/audiences/${payload.audienceId}/contacts`,
+        `/audiences/${encodePathSegment(payload.audienceId)}/contacts`,
         {
           unsubscribed: payload.unsubscribed,
           email: payload.email,
@@ -109,14 +110,19 @@ export class Contacts {
       return data;
     }
 
-    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);
+    const url = buildPaginationUrl(
+      `/segments/${encodePathSegment(segmentId)}/contacts`,
+      options,
+    );
     const data = await this.resend.get<ListContactsResponseSuccess>(url);
     return data;
   }
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
     if (typeof options === 'string') {
-      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
+      return this.resend.get<GetContactResponseSuccess>(
+        `/contacts/${encodePathSegment(options)}`,
+      );
     }
 
     if (!options.id && !options.email) {
@@ -133,12 +139,12 @@ export class Contacts {
 
     if (!options.audienceId) {
       return this.resend.get<GetContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       );
     }
 
     return this.resend.get<GetContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${encodePathSegment(options.audienceId)}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
     );
   }
 
@@ -157,7 +163,7 @@ export class Contacts {
 
     if (!options.audienceId) {
       const data = await this.resend.patch<UpdateContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
         {
           unsubscribed: options.unsubscribed,
           first_name: options.firstName,
@@ -169,7 +175,7 @@ export class Contacts {
     }
 
     const data = await this.resend.patch<UpdateContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${encodePathSegment(options.audienceId)}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       {
         unsubscribed: options.unsubscribed,
         first_name: options.firstName,
@@ -183,7 +189,7 @@ export class Contacts {
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
     if (typeof payload === 'string') {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload}`,
+        `/contacts/${encodePathSegment(payload)}`,
       );
     }
 
@@ -201,14 +207,12 @@ export class Contacts {
 
     if (!payload.audienceId) {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload?.email ? payload?.email : payload?.id}`,
+        `/contacts/${encodePathSegment(payload?.email ? payload?.email : payload?.id)}`,
       );
     }
 
     return this.resend.delete<RemoveContactsResponseSuccess>(
-      `/audiences/${payload.audienceId}/contacts/${
-        payload?.email ? payload?.email : payload?.id
-      }`,
+      `/audiences/${encodePathSegment(payload.audienceId)}/contacts/${encodePathSegment(payload?.email ? payload?.email : payload?.id)}`,
     );
   }
 }
diff --git a/src/contacts/imports/contact-imports.ts b/src/contacts/imports/contact-imports.ts
index 8559e8a..7ee8631 100644
--- a/src/contacts/imports/contact-imports.ts
+++ b/src/contacts/imports/contact-imports.ts
@@ -1,4 +1,5 @@
 import { buildPaginationQuery } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   ContactImportColumnMap,
@@ -54,7 +55,7 @@ export class ContactImports {
 
   async get(id: string): Promise<GetContactImportResponse> {
     return this.resend.get<GetContactImportResponseSuccess>(
-      `/contacts/imports/${id}`,
+      `/contacts/imports/${encodePathSegment(id)}`,
     );
   }
 
diff --git a/src/contacts/segments/contact-segments.ts b/src/contacts/segments/contact-segments.ts
index 338e4da..a5fdc21 100644
--- a/src/contacts/segments/contact-segments.ts
+++ b/src/contacts/segments/contact-segments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   AddContactSegmentOptions,
@@ -35,7 +36,10 @@ export class ContactSegments {
     }
 
     const identifier = options.email ? options.email : options.contactId;
-    const url = buildPaginationUrl(`/contacts/${identifier}/segments`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/segments`,
+      options,
+    );
 
     const data = await this.resend.get<ListContactSegmentsResponseSuccess>(url);
     return data;
@@ -58,7 +62,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.post<AddContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${encodePathSegment(options.segmentId)}`,
     );
   }
 
@@ -79,7 +83,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.delete<RemoveContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${encodePathSegment(options.segmentId)}`,
     );
   }
 }
diff --git a/src/contacts/topics/contact-topics.ts b/src/contacts/topics/contact-topics.ts
index 8ff1919..3bbe435 100644
--- a/src/contacts/topics/contact-topics.ts
+++ b/src/contacts/topics/contact-topics.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   ListContactTopicsOptions,
@@ -31,7 +32,7 @@ export class ContactTopics {
 
     const identifier = payload.email ? payload.email : payload.id;
     return this.resend.patch<UpdateContactTopicsResponseSuccess>(
-      `/contacts/${identifier}/topics`,
+      `/contacts/${encodePathSegment(identifier)}/topics`,
       payload.topics,
     );
   }
@@ -52,7 +53,10 @@ export class ContactTopics {
     }
 
     const identifier = options.email ? options.email : options.id;
-    const url = buildPaginationUrl(`/contacts/${identifier}/topics`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/topics`,
+      options,
+    );
 
     return this.resend.get<ListContactTopicsResponseSuccess>(url);
   }
diff --git a/src/domains/claims/domain-claims.ts b/src/domains/claims/domain-claims.ts
index a7bff5a..4ce9cb0 100644
--- a/src/domains/claims/domain-claims.ts
+++ b/src/domains/claims/domain-claims.ts
@@ -1,3 +1,4 @@
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   ClaimDomainOptions,
@@ -38,14 +39,14 @@ export class DomainClaims {
 
   async get(domainId: string): Promise<GetDomainClaimResponse> {
     const data = await this.resend.get<GetDomainClaimResponseSuccess>(
-      `/domains/${domainId}/claim`,
+      `/domains/${encodePathSegment(domainId)}/claim`,
     );
     return data;
   }
 
   async verify(domainId: string): Promise<VerifyDomainClaimResponse> {
     const data = await this.resend.post<VerifyDomainClaimResponseSuccess>(
-      `/domains/${domainId}/claim/verify`,
+      `/domains/${encodePathSegment(domainId)}/claim/verify`,
     );
     return data;
   }
diff --git a/src/domains/domains.ts b/src/domains/domains.ts
index fddd3da..9f05723 100644
--- a/src/domains/domains.ts
+++ b/src/domains/domains.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { parseDomainToApiOptions } from '../common/utils/parse-domain-to-api-options';
 import type { Resend } from '../resend';
 import { DomainClaims } from './claims/domain-claims';
@@ -59,7 +60,7 @@ export class Domains {
 
   async get(id: string): Promise<GetDomainResponse> {
     const data = await this.resend.get<GetDomainResponseSuccess>(
-      `/domains/${id}`,
+      `/domains/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -67,7 +68,7 @@ export class Domains {
 
   async update(payload: UpdateDomainsOptions): Promise<UpdateDomainsResponse> {
     const data = await this.resend.patch<UpdateDomainsResponseSuccess>(
-      `/domains/${payload.id}`,
+      `/domains/${encodePathSegment(payload.id)}`,
       {
         click_tracking: payload.clickTracking,
         open_tracking: payload.openTracking,
@@ -81,14 +82,14 @@ export class Domains {
 
   async remove(id: string): Promise<RemoveDomainsResponse> {
     const data = await this.resend.delete<RemoveDomainsResponseSuccess>(
-      `/domains/${id}`,
+      `/domains/${encodePathSegment(id)}`,
     );
     return data;
   }
 
   async verify(id: string): Promise<VerifyDomainsResponse> {
     const data = await this.resend.post<VerifyDomainsResponseSuccess>(
-      `/domains/${id}/verify`,
+      `/domains/${encodePathSegment(id)}/verify`,
     );
     return data;
   }
diff --git a/src/emails/attachments/attachments.ts b/src/emails/attachments/attachments.ts
index 86ee77b..75feddb 100644
--- a/src/emails/attachments/attachments.ts
+++ b/src/emails/attachments/attachments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   GetAttachmentOptions,
@@ -16,7 +17,7 @@ export class Attachments {
     const { emailId, id } = options;
 
     const data = await this.resend.get<GetAttachmentResponseSuccess>(
-      `/emails/${emailId}/attachments/${id}`,
+      `/emails/${encodePathSegment(emailId)}/attachments/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -27,7 +28,10 @@ export class Attachments {
   ): Promise<ListAttachmentsResponse> {
     const { emailId } = options;
 
-    const url = buildPaginationUrl(`/emails/${emailId}/attachments`, options);
+    const url = buildPaginationUrl(
+      `/emails/${encodePathSegment(emailId)}/attachments`,
+      options,
+    );
 
     const data = await this.resend.get<ListAttachmentsResponseSuccess>(url);
 
diff --git a/src/emails/emails.ts b/src/emails/emails.ts
index 7e786b6..77ae45c 100644
--- a/src/emails/emails.ts
+++ b/src/emails/emails.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { parseEmailToApiOptions } from '../common/utils/parse-email-to-api-options';
 import { render } from '../render';
 import type { Resend } from '../resend';
@@ -77,7 +78,7 @@ export class Emails {
 
   async get(id: string): Promise<GetEmailResponse> {
     const data = await this.resend.get<GetEmailResponseSuccess>(
-      `/emails/${id}`,
+      `/emails/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -93,7 +94,7 @@ export class Emails {
 
   async update(payload: UpdateEmailOptions): Promise<UpdateEmailResponse> {
     const data = await this.resend.patch<UpdateEmailResponseSuccess>(
-      `/emails/${payload.id}`,
+      `/emails/${encodePathSegment(payload.id)}`,
       {
         scheduled_at: payload.scheduledAt,
       },
@@ -103,7 +104,7 @@ export class Emails {
 
   async cancel(id: string): Promise<CancelEmailResponse> {
     const data = await this.resend.post<CancelEmailResponseSuccess>(
-      `/emails/${id}/cancel`,
+      `/emails/${encodePathSegment(id)}/cancel`,
     );
     return data;
   }
@@ -113,7 +114,7 @@ export class Emails {
     payload?: ShareEmailOptions,
   ): Promise<ShareEmailResponse> {
     const data = await this.resend.post<ShareEmailResponseSuccess>(
-      `/emails/${id}/share`,
+      `/emails/${encodePathSegment(id)}/share`,
       { expires_in: payload?.expiresIn },
     );
     return data;
diff --git a/src/emails/receiving/attachments/attachments.ts b/src/emails/receiving/attachments/attachments.ts
index 563d4f0..d6c0043 100644
--- a/src/emails/receiving/attachments/attachments.ts
+++ b/src/emails/receiving/attachments/attachments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../../common/utils/encode-path-segment';
 import type { Resend } from '../../../resend';
 import type {
   GetAttachmentOptions,
@@ -16,7 +17,7 @@ export class Attachments {
     const { emailId, id } = options;
 
     const data = await this.resend.get<GetAttachmentResponseSuccess>(
-      `/emails/receiving/${emailId}/attachments/${id}`,
+      `/emails/receiving/${encodePathSegment(emailId)}/attachments/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -28,7 +29,7 @@ export class Attachments {
     const { emailId } = options;
 
     const url = buildPaginationUrl(
-      `/emails/receiving/${emailId}/attachments`,
+      `/emails/receiving/${encodePathSegment(emailId)}/attachments`,
       options,
     );
 
diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index ac58376..38f1cc3 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,5 +1,6 @@
 import PostalMime from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import { Attachments } from './attachments/attachments';
 import type {
@@ -38,8 +39,8 @@ export class Receiving {
 
     const queryString = searchParams.toString();
     const path = queryString
-      ? `/emails/receiving/${id}?${queryString}`
-      : `/emails/receiving/${id}`;
+      ? `/emails/receiving/${encodePathSegment(id)}?${queryString}`
+      : `/emails/receiving/${encodePathSegment(id)}`;
 
     const data = await this.resend.get<GetReceivingEmailResponseSuccess>(path);
 
diff --git a/src/logs/logs.ts b/src/logs/logs.ts
index 8e853ab..ca59f35 100644
--- a/src/logs/logs.ts
+++ b/src/logs/logs.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   GetLogResponse,
@@ -20,7 +21,9 @@ export class Logs {
   }
 
   async get(id: string): Promise<GetLogResponse> {
-    const data = await this.resend.get<GetLogResponseSuccess>(`/logs/${id}`);
+    const data = await this.resend.get<GetLogResponseSuccess>(
+      `/logs/${encodePathSegment(id)}`,
+    );
     return data;
   }
 }
diff --git a/src/oauth-grants/oauth-grants.ts b/src/oauth-grants/oauth-grants.ts
index 7d98198..5a7aefe 100644
--- a/src/oauth-grants/oauth-grants.ts
+++ b/src/oauth-grants/oauth-grants.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   ListOAuthGrantsOptions,
@@ -24,7 +25,7 @@ export class OAuthGrants {
 
   async revoke(id: string): Promise<RevokeOAuthGrantResponse> {
     const data = await this.resend.delete<RevokeOAuthGrantResponseSuccess>(
-      `/oauth/grants/${id}`,
+      `/oauth/grants/${encodePathSegment(id)}`,
     );
     return data;
   }
diff --git a/src/segments/segments.ts b/src/segments/segments.ts
index 59144bb..e955b0c 100644
--- a/src/segments/segments.ts
+++ b/src/segments/segments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   CreateSegmentOptions,
@@ -44,14 +45,14 @@ export class Segments {
 
   async get(id: string): Promise<GetSegmentResponse> {
     const data = await this.resend.get<GetSegmentResponseSuccess>(
-      `/segments/${id}`,
+      `/segments/${encodePathSegment(id)}`,
     );
     return data;
   }
 
   async remove(id: string): Promise<RemoveSegmentResponse> {
     const data = await this.resend.delete<RemoveSegmentResponseSuccess>(
-      `/segments/${id}`,
+      `/segments/${encodePathSegment(id)}`,
     );
     return data;
   }
diff --git a/src/templates/templates.ts b/src/templates/templates.ts
index 2e232bd..baed3f9 100644
--- a/src/templates/templates.ts
+++ b/src/templates/templates.ts
@@ -1,4 +1,5 @@
 import type { PaginationOptions } from '../common/interfaces';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { getPaginationQueryProperties } from '../common/utils/get-pagination-query-properties';
 import { parseTemplateToApiOptions } from '../common/utils/parse-template-to-api-options';
 import { render } from '../render';
@@ -65,14 +66,14 @@ export class Templates {
 
   async remove(identifier: string): Promise<RemoveTemplateResponse> {
     const data = await this.resend.delete<RemoveTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
 
   async get(identifier: string): Promise<GetTemplateResponse> {
     const data = await this.resend.get<GetTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
@@ -87,7 +88,7 @@ export class Templates {
     identifier: string,
   ): ChainableTemplateResult<DuplicateTemplateResponse> {
     const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(
-      `/templates/${identifier}/duplicate`,
+      `/templates/${encodePathSegment(identifier)}/duplicate`,
     );
     return new ChainableTemplateResult(
       promiseDuplicate,
@@ -97,7 +98,7 @@ export class Templates {
 
   async publish(identifier: string): Promise<PublishTemplateResponse> {
     const data = await this.resend.post<PublishTemplateResponseSuccess>(
-      `/templates/${identifier}/publish`,
+      `/templates/${encodePathSegment(identifier)}/publish`,
     );
     return data;
   }
@@ -107,7 +108,7 @@ export class Templates {
     payload: UpdateTemplateOptions,
   ): Promise<UpdateTemplateResponse> {
     const data = await this.resend.patch<UpdateTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
       parseTemplateToApiOptions(payload),
     );
     return data;
diff --git a/src/topics/topics.ts b/src/topics/topics.ts
index 31df5bd..22af6bd 100644
--- a/src/topics/topics.ts
+++ b/src/topics/topics.ts
@@ -1,3 +1,4 @@
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   CreateTopicOptions,
@@ -55,7 +56,7 @@ export class Topics {
       };
     }
     const data = await this.resend.get<GetTopicResponseSuccess>(
-      `/topics/${id}`,
+      `/topics/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -75,7 +76,7 @@ export class Topics {
     }
 
     const data = await this.resend.patch<UpdateTopicResponseSuccess>(
-      `/topics/${payload.id}`,
+      `/topics/${encodePathSegment(payload.id)}`,
       payload,
     );
 
@@ -96,7 +97,7 @@ export class Topics {
     }
 
     const data = await this.resend.delete<RemoveTopicResponseSuccess>(
-      `/topics/${id}`,
+      `/topics/${encodePathSegment(id)}`,
     );
 
     return data;
diff --git a/src/webhooks/webhooks.ts b/src/webhooks/webhooks.ts
index 2210510..2c7467f 100644
--- a/src/webhooks/webhooks.ts
+++ b/src/webhooks/webhooks.ts
@@ -1,5 +1,6 @@
 import { Webhook } from 'standardwebhooks';
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import type {
   CreateWebhookOptions,
@@ -56,7 +57,7 @@ export class Webhooks {
 
   async get(id: string): Promise<GetWebhookResponse> {
     const data = await this.resend.get<GetWebhookResponseSuccess>(
-      `/webhooks/${id}`,
+      `/webhooks/${encodePathSegment(id)}`,
     );
 
     return data;
@@ -74,7 +75,7 @@ export class Webhooks {
     payload: UpdateWebhookOptions,
   ): Promise<UpdateWebhookResponse> {
     const data = await this.resend.patch<UpdateWebhookResponseSuccess>(
-      `/webhooks/${id}`,
+      `/webhooks/${encodePathSegment(id)}`,
       payload,
     );
     return data;
@@ -82,7 +83,7 @@ export class Webhooks {
 
   async remove(id: string): Promise<RemoveWebhookResponse> {
     const data = await this.resend.delete<RemoveWebhookResponseSuccess>(
-      `/webhooks/${id}`,
+      `/webhooks/${encodePathSegment(id)}`,
     );
     return data;
   }
-- 
2.43.0


From 300613887b5b16685232af2759d5a735f818dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 09/13] fix: keep zero limits and empty cursors when listing
 templates

---
 src/common/utils/get-pagination-query-properties.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/utils/get-pagination-query-properties.ts b/src/common/utils/get-pagination-query-properties.ts
index 37557dd..542b67c 100644
--- a/src/common/utils/get-pagination-query-properties.ts
+++ b/src/common/utils/get-pagination-query-properties.ts
@@ -5,9 +5,11 @@ export function getPaginationQueryProperties(
 ): string {
   const query = new URLSearchParams();
 
-  if (options.before) query.set('before', options.before);
-  if (options.after) query.set('after', options.after);
-  if (options.limit) query.set('limit', options.limit.toString());
+  const { before, after, limit } = options;
+
+  if (before !== undefined && before !== null) query.set('before', before);
+  if (after !== undefined && after !== null) query.set('after', after);
+  if (limit !== undefined && limit !== null) query.set('limit', String(limit));
 
   return query.size > 0 ? `?${query.toString()}` : '';
 }
-- 
2.43.0


From 573fb23866e27af208e4e8b77f938b340a2dd7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 10/13] fix: treat undefined contact creation fields as absent

---
 src/contacts/contacts.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 81dc6af..81352f0 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -57,8 +57,11 @@ export class Contacts {
     options: CreateContactRequestOptions = {},
   ): Promise<CreateContactResponse> {
     // Legacy create contact endpoint
-    if ('audienceId' in payload) {
-      if ('segments' in payload || 'topics' in payload) {
+    if ('audienceId' in payload && payload.audienceId !== undefined) {
+      if (
+        ('segments' in payload && payload.segments !== undefined) ||
+        ('topics' in payload && payload.topics !== undefined)
+      ) {
         return {
           data: null,
           headers: null,
@@ -86,6 +89,7 @@ export class Contacts {
     }
 
     // Current create contact endpoint
+    const { segments, topics } = payload as CreateContactOptions;
     const data = await this.resend.post<CreateContactResponseSuccess>(
       '/contacts',
       {
@@ -94,8 +98,8 @@ export class Contacts {
         first_name: payload.firstName,
         last_name: payload.lastName,
         properties: payload.properties,
-        segments: payload.segments,
-        topics: payload.topics,
+        segments,
+        topics,
       },
       options,
     );
-- 
2.43.0


From 955b1c66fa53d806b242042985e6a4ada3b35500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 11/13] fix: settle property listings whose answer has no list

---
 src/contact-properties/contact-properties.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contact-properties/contact-properties.ts b/src/contact-properties/contact-properties.ts
index 72f583c..a4969e9 100644
--- a/src/contact-properties/contact-properties.ts
+++ b/src/contact-properties/contact-properties.ts
@@ -51,7 +51,7 @@ export class ContactProperties {
     const response =
       await this.resend.get<ListContactPropertiesResponseSuccess>(url);
 
-    if (response.data) {
+    if (Array.isArray(response.data?.data)) {
       return {
         data: {
           ...response.data,
@@ -64,7 +64,7 @@ export class ContactProperties {
       };
     }
 
-    return response;
+    return response as ListContactPropertiesResponse;
   }
 
   async get(id: string): Promise<GetContactPropertyResponse> {
-- 
2.43.0


From db6261d6f831bdb85ee415ca6550a9cf11e73b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 12/13] fix: report an empty received email as one without raw
 content

---
 src/emails/receiving/receiving.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 38f1cc3..148806f 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -79,7 +79,7 @@ export class Receiving {
 
     const email = emailResponse.data;
 
-    const originalSubject = email.subject || '(no subject)';
+    const originalSubject = email?.subject || '(no subject)';
 
     if (passthrough) {
       return this.forwardPassthrough(
@@ -117,7 +117,7 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { to, from, subject } = options;
 
-    if (!email.raw?.download_url) {
+    if (!email?.raw?.download_url) {
       return {
         data: null,
         error: {
@@ -201,7 +201,7 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { to, from, subject, text, html } = options;
 
-    if (!email.raw?.download_url) {
+    if (!email?.raw?.download_url) {
       return {
         data: null,
         error: {
-- 
2.43.0


From c8401d450732de5db91b86020b590e3c75b29de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 13/13] fix: do not publish a template whose creation returned
 no id

---
 src/templates/chainable-template-result.ts | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 343e003..0f82439 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -34,6 +34,20 @@ export class ChainableTemplateResult<
         error,
       };
     }
+
+    if (!data?.id) {
+      return {
+        data: null,
+        headers: null,
+        error: {
+          name: 'application_error',
+          statusCode: null,
+          message:
+            'Unable to publish the template. The response did not include its id.',
+        },
+      };
+    }
+
     return this.publishFn(data.id);
   }
 }
-- 
2.43.0

