From a41ed6652b3a129a234ed1df2ac07869b3315274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:19 +0000
Subject: [PATCH 01/42] fix: keep the selection of a fully disabled index list
 on key presses

---
 .../list-index-selector/list-index-selector-composable.ts    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
index 20e6cd2..4cd5e3e 100644
--- a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
+++ b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
@@ -79,11 +79,14 @@ export function useIndexSelector(
     }
 
     function selectIndex(index: number) {
+        if (isAllDisabled()) {
+            return;
+        }
         if (isOutOfRange(index)) {
             selectedIndex.value = NOT_SELECTED;
             return;
         }
-        if (isAllDisabled() || isDisabled(index)) {
+        if (isDisabled(index)) {
             return;
         }
         selectedIndex.value = index;
-- 
2.43.0


From d83b01297f1c6f6fce2482ff459c071d8bbbbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:19 +0000
Subject: [PATCH 02/42] fix: ignore chip removal while a select is disabled or
 read-only

---
 .../components/vs-select/composables/select-value-composable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
index f2b112a..c9e850d 100644
--- a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
+++ b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
@@ -57,7 +57,7 @@ export function useSelectValue({
     }
 
     function deselectOption(optionId: string) {
-        if (!isSelected(optionId)) {
+        if (isSelectUnavailable.value || !isSelected(optionId)) {
             return;
         }
 
-- 
2.43.0


From d6620db0fdcf0ee42ac2dbf61fae43da79fd3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:19 +0000
Subject: [PATCH 03/42] fix: ignore file dialog results while a file drop is
 disabled or read-only

---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 4d8df07..5826738 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -288,6 +288,10 @@ export default defineComponent({
         }
 
         function handleFileDialog(event: Event) {
+            if (computedDisabled.value || computedReadonly.value) {
+                return;
+            }
+
             const target = event.target as HTMLInputElement;
             const files = Array.from(target.files || []);
 
-- 
2.43.0


From d96ebff1da7b01102f924be43ef673053027a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:00 +0000
Subject: [PATCH 04/42] fix: register the visible-render component the table
 template uses

---
 packages/vlossom/src/components/vs-table/VsTable.vue | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTable.vue b/packages/vlossom/src/components/vs-table/VsTable.vue
index 3723143..53b9a44 100644
--- a/packages/vlossom/src/components/vs-table/VsTable.vue
+++ b/packages/vlossom/src/components/vs-table/VsTable.vue
@@ -134,6 +134,7 @@ import type { VsSearchInputRef } from './../vs-search-input/types';
 import VsSearchInput from '@/components/vs-search-input/VsSearchInput.vue';
 import VsGrid from '@/components/vs-grid/VsGrid.vue';
 import VsResponsive from '@/components/vs-responsive/VsResponsive.vue';
+import VsVisibleRender from '@/components/vs-visible-render/VsVisibleRender.vue';
 import VsTableHeader from './VsTableHeader.vue';
 import VsTableBody from './VsTableBody.vue';
 import VsTablePagination from './VsTablePagination.vue';
@@ -142,7 +143,15 @@ const componentName = VsComponent.VsTable;
 
 export default defineComponent({
     name: componentName,
-    components: { VsTableHeader, VsTableBody, VsSearchInput, VsTablePagination, VsGrid, VsResponsive },
+    components: {
+        VsTableHeader,
+        VsTableBody,
+        VsSearchInput,
+        VsTablePagination,
+        VsGrid,
+        VsResponsive,
+        VsVisibleRender,
+    },
     props: {
         ...getColorSchemeProps(),
         ...getStyleSetProps<VsTableStyleSet>(),
-- 
2.43.0


From 6b0434df77c838ed99fe5f1abe2507aec66f2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:48 +0000
Subject: [PATCH 05/42] fix: publish the table instance type and the theme
 button types

---
 packages/vlossom/src/components/index.ts          | 1 +
 packages/vlossom/src/components/vs-table/types.ts | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/index.ts b/packages/vlossom/src/components/index.ts
index bbc55c1..97d3f30 100644
--- a/packages/vlossom/src/components/index.ts
+++ b/packages/vlossom/src/components/index.ts
@@ -44,6 +44,7 @@ export type * from './vs-table/types';
 export type * from './vs-tabs/types';
 export type * from './vs-textarea/types';
 export type * from './vs-text-wrap/types';
+export type * from './vs-theme-button/types';
 export type * from './vs-toast/types';
 export type * from './vs-toggle/types';
 export type * from './vs-tooltip/types';
diff --git a/packages/vlossom/src/components/vs-table/types.ts b/packages/vlossom/src/components/vs-table/types.ts
index 8b12ca1..67c9a00 100644
--- a/packages/vlossom/src/components/vs-table/types.ts
+++ b/packages/vlossom/src/components/vs-table/types.ts
@@ -1,4 +1,4 @@
-import type { CSSProperties } from 'vue';
+import type { ComponentPublicInstance, CSSProperties } from 'vue';
 import type { SizeProp, TextAlignment, VerticalAlignment } from '@/declaration';
 import type VsTable from './VsTable.vue';
 import type { VsSearchInputStyleSet } from '@/components/vs-search-input/types';
@@ -11,6 +11,10 @@ declare module 'vue' {
     }
 }
 
+export type { VsTable };
+
+export interface VsTableRef extends ComponentPublicInstance<typeof VsTable> {}
+
 export const TABLE_STYLE_SET_TOKEN = Symbol('TABLE_STYLE_SET_TOKEN');
 export const TABLE_COLOR_SCHEME_TOKEN = Symbol('TABLE_COLOR_SCHEME_TOKEN');
 export const TABLE_SIZE_TOKEN = Symbol('TABLE_SIZE_TOKEN');
-- 
2.43.0


From df512af835a712a5e4c6c18c70a4174c3e0b1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:41 +0000
Subject: [PATCH 06/42] fix: drop results of superseded rule and message
 evaluations

---
 .../composables/input-messages/input-messages-composable.ts  | 5 +++++
 .../src/composables/input-rules/input-rules-composable.ts    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
index cd08555..1601166 100644
--- a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
+++ b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
@@ -9,7 +9,9 @@ export function useInputMessages<T>(
     const innerMessages: Ref<StateMessage[]> = ref([]);
     const showRuleMessages = ref(false);
 
+    let runId = 0;
     async function checkMessages() {
+        const current = ++runId;
         innerMessages.value = [];
         const pendingMessages: Promise<StateMessage>[] = [];
 
@@ -30,6 +32,9 @@ export function useInputMessages<T>(
             return;
         }
         const resolvedMessages = await Promise.all(pendingMessages);
+        if (current !== runId) {
+            return;
+        }
         innerMessages.value.push(...resolvedMessages);
     }
 
diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 4d2fabd..4dab18d 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -16,7 +16,9 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    let runId = 0;
     async function checkRules() {
+        const current = ++runId;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
@@ -46,6 +48,9 @@ export function useInputRules<T>(
             return acc;
         }, []);
 
+        if (current !== runId) {
+            return;
+        }
         ruleMessages.value.push(...resolvedMessages);
     }
     watch(computedRules, checkRules, { deep: true });
-- 
2.43.0


From 53f93202f9f8dce2ebdcea6a451db10d56879c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:51 +0000
Subject: [PATCH 07/42] fix: follow later changes of the page size given to a
 table

---
 .../components/vs-table/composables/table-composable.ts    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index 928af2e..d8304c2 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -151,6 +151,13 @@ export function useTable(
         },
     });
 
+    watch(
+        () => rawPageSize?.value,
+        (value) => {
+            internalPageSize.value = typeof value === 'number' ? value : Number.NaN;
+        },
+    );
+
     const tableCellBuilder = new TableCellBuilder(items.value, columns.value);
     const { anyExpandable, isExpanded, toggleExpand } = useTableExpand(expandable, items);
     const { sortType, sortColumn, compareRows, updateSortType } = useTableSort(columns);
-- 
2.43.0


From 80c99c16ff309f5f4f69f9bdde0a3ee1a5202808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:38 +0000
Subject: [PATCH 08/42] fix: take an overlay off the stack before running its
 close callbacks

---
 .../src/stores/overlay-callback-store.ts      | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/stores/overlay-callback-store.ts b/packages/vlossom/src/stores/overlay-callback-store.ts
index 2aaf40d..e9395ed 100644
--- a/packages/vlossom/src/stores/overlay-callback-store.ts
+++ b/packages/vlossom/src/stores/overlay-callback-store.ts
@@ -53,6 +53,12 @@ export class OverlayCallbackStore {
         return await callbacks.value[eventName]?.(...args);
     }
 
+    // the overlay is already off the stack, so its callbacks may safely open or close other overlays
+    private async runClose<T = void>([, callbacks]: OverlayTuple, ...args: any[]): Promise<T | void> {
+        callbacks.value[OVERLAY_CLOSE]?.(...args);
+        return await callbacks.value['close']?.(...args);
+    }
+
     public push(id: string, callbacks: Ref<OverlayCallbacks>) {
         this._overlays.value.push([id, callbacks]);
         this.run(id, OVERLAY_OPEN);
@@ -60,16 +66,12 @@ export class OverlayCallbackStore {
     }
 
     public pop(...args: any[]) {
-        const overlay = this.getLastOverlay();
+        const overlay = this._overlays.value.pop();
         if (!overlay) {
             return;
         }
-        const [targetId] = overlay;
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.pop();
 
-        return result;
+        return this.runClose(overlay, ...args);
     }
 
     public remove(id: string, ...args: any[]) {
@@ -77,12 +79,9 @@ export class OverlayCallbackStore {
         if (index === -1) {
             return;
         }
-        const [targetId] = this._overlays.value[index];
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.splice(index, 1);
+        const [overlay] = this._overlays.value.splice(index, 1);
 
-        return result;
+        return this.runClose(overlay, ...args);
     }
 
     public clear(...args: any[]) {
-- 
2.43.0


From 08d1b7876fb073cc91a99195be49f47c3280367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:13 +0000
Subject: [PATCH 09/42] fix: leave the overlay stack with the pushed id, also
 on unmount

---
 .../overlay-callback-composable.ts                 | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 9617417..88e0ccb 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -1,4 +1,4 @@
-import { computed, type Ref, ref, watch } from 'vue';
+import { computed, onBeforeUnmount, type Ref, ref, watch } from 'vue';
 import { useOverlayCallbackStore } from '@/stores';
 import { stringUtil } from '@/utils';
 import { ANIMATION_DURATION, type OverlayCallbacks } from '@/declaration';
@@ -10,6 +10,7 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     const isActivated = ref(false);
     const isUnmounting = ref(false);
+    let pushedId = ''; // the id this overlay is on the stack with, id may change while it is open
 
     function activate() {
         isActivated.value = true;
@@ -21,10 +22,11 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     watch(isActivated, (o) => {
         if (o) {
-            overlayCallbackStore.push(overlayId.value, callbacks);
+            pushedId = overlayId.value;
+            overlayCallbackStore.push(pushedId, callbacks);
         } else {
             isUnmounting.value = true;
-            overlayCallbackStore.remove(overlayId.value);
+            overlayCallbackStore.remove(pushedId);
 
             setTimeout(() => {
                 isUnmounting.value = false;
@@ -32,5 +34,11 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         }
     });
 
+    onBeforeUnmount(() => {
+        if (isActivated.value) {
+            overlayCallbackStore.remove(pushedId);
+        }
+    });
+
     return { overlayId, isActivated, isUnmounting, activate, deactivate };
 }
-- 
2.43.0


From 88de89e114075346fc38af2a0c88e08b6da908d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:31 +0000
Subject: [PATCH 10/42] fix: close the modal that was asked, not the topmost
 overlay

---
 packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 451be6b..568a526 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -59,10 +59,9 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.pop(container);
+            modalStore.remove(container, last.id);
 
-            const lastOverlayId = overlayCallbackStore.getLastOverlayId();
-            overlayCallbackStore.remove(lastOverlayId);
+            overlayCallbackStore.remove(last.id);
             return true;
         },
 
-- 
2.43.0


From 4691f054590f6e65b302549fdbf3ee6291732b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:42 +0000
Subject: [PATCH 11/42] fix: settle alert, confirm and prompt through their own
 dialog

---
 .../src/plugins/alert-plugin/alert-plugin.ts  | 18 ++++++++++--------
 .../plugins/confirm-plugin/confirm-plugin.ts  | 19 ++++++++++---------
 .../plugins/prompt-plugin/prompt-plugin.ts    | 19 ++++++++++---------
 3 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
index 620bc19..fcc437b 100644
--- a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
+++ b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
@@ -10,18 +10,16 @@ import type { AlertModalOptions, AlertPlugin, VsAlertStyleSet } from './types';
 export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleOk() {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleOk(overlayId: string) {
         overlayCallback.run<void>(overlayId, ALERT_OK);
     }
 
     return {
         open(content: string | Component, options: AlertModalOptions = {}): Promise<void> {
             const { componentProps, ...modalOptions } = options;
-            const { container = 'body', colorScheme, styleSet, okText = 'OK' } = modalOptions;
+            const { colorScheme, styleSet, okText = 'OK' } = modalOptions;
+            const container = modalOptions.container || 'body';
+            let modalId = '';
 
             const baseStyleSet: Ref<Partial<VsAlertStyleSet>> = ref({
                 $okButton: { minWidth: '8rem' },
@@ -38,7 +36,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: handleOk,
+                onClickEvent: () => handleOk(modalId),
             });
 
             const contents = h(VsRender, { content, componentProps });
@@ -46,7 +44,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const alert = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(alert, {
+                modalId = modalPlugin.open(alert, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -68,6 +66,10 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
                     },
                     size: 'xs',
                 });
+
+                if (!modalId) {
+                    resolve();
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
index e80e152..6451de8 100644
--- a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
+++ b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
@@ -11,11 +11,7 @@ import type { ConfirmModalOptions, ConfirmPlugin, VsConfirmStyleSet } from './ty
 export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleButton(overlayId: string, eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
         overlayCallback.run<boolean>(overlayId, eventName);
     }
 
@@ -23,13 +19,14 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
         open(content: string | Component, options: ConfirmModalOptions = {}): Promise<boolean> {
             const { componentProps, ...modalOptions } = options;
             const {
-                container = 'body',
                 colorScheme,
                 styleSet,
                 okText = 'OK',
                 cancelText = 'Cancel',
                 swapButtons,
             } = modalOptions;
+            const container = modalOptions.container || 'body';
+            let modalId = '';
 
             const baseStyleSet: Ref<Partial<VsConfirmStyleSet>> = ref({
                 $okButton: { minWidth: '8rem' },
@@ -44,13 +41,13 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(CONFIRM_OK),
+                onClickEvent: () => handleButton(modalId, CONFIRM_OK),
             });
 
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(CONFIRM_CANCEL),
+                onClickEvent: () => handleButton(modalId, CONFIRM_CANCEL),
             });
 
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
@@ -68,7 +65,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const confirm = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(confirm, {
+                modalId = modalPlugin.open(confirm, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -94,6 +91,10 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                     },
                     size: 'xs',
                 });
+
+                if (!modalId) {
+                    resolve(false);
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
index d75b8a8..37b1b9c 100644
--- a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
+++ b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
@@ -10,11 +10,7 @@ import { vnodeUtils } from './../utils/vnode-utils';
 export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleButton(overlayId: string, eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
         overlayCallback.run<VsInputValueType>(overlayId, eventName);
     }
 
@@ -22,7 +18,6 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
         open(content: string | Component, options: PromptModalOptions = {}): Promise<string | number | null> {
             const { componentProps, ...modalOptions } = options;
             const {
-                container = 'body',
                 colorScheme,
                 styleSet,
                 okText = 'OK',
@@ -30,6 +25,8 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                 swapButtons,
                 input: inputOptions,
             } = modalOptions;
+            const container = modalOptions.container || 'body';
+            let modalId = '';
 
             const inputRef = ref<VsInputRef | null>(null);
             const inputValue = ref<VsInputValueType>(inputOptions?.initialValue ?? null);
@@ -51,12 +48,12 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(PROMPT_OK),
+                onClickEvent: () => handleButton(modalId, PROMPT_OK),
             });
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(PROMPT_CANCEL),
+                onClickEvent: () => handleButton(modalId, PROMPT_CANCEL),
             });
             const buttons = h(
                 'div',
@@ -87,7 +84,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             };
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(prompt, {
+                modalId = modalPlugin.open(prompt, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -121,6 +118,10 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                     },
                     size: 'xs',
                 });
+
+                if (!modalId) {
+                    resolve(null);
+                }
             });
         },
     };
-- 
2.43.0


From 366f912cf134e39d06ad582e2c485ef546112b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:09 +0000
Subject: [PATCH 12/42] fix: apply the light theme at start-up too

---
 packages/vlossom/src/framework/vlossom-class.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/framework/vlossom-class.ts b/packages/vlossom/src/framework/vlossom-class.ts
index b3a5ef1..7b8803d 100644
--- a/packages/vlossom/src/framework/vlossom-class.ts
+++ b/packages/vlossom/src/framework/vlossom-class.ts
@@ -98,8 +98,9 @@ export class Vlossom {
     private setDefaultTheme(optionTheme: Theme = 'light') {
         const savedTheme = localStorage.getItem(THEME_KEY);
         const mediaQuery = window.matchMedia('(prefers-color-scheme: dark)');
-        if (savedTheme === 'dark' || (!savedTheme && mediaQuery.matches) || (!savedTheme && optionTheme === 'dark')) {
-            this.theme = 'dark';
-        }
+        const isDark =
+            savedTheme === 'dark' || (!savedTheme && mediaQuery.matches) || (!savedTheme && optionTheme === 'dark');
+
+        this.theme = isDark ? 'dark' : 'light';
     }
 }
-- 
2.43.0


From bf27750c80f9a7c497f6b4e52e22eedcecc7075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:13 +0000
Subject: [PATCH 13/42] fix: remove the overlay host when the application is
 unmounted

---
 packages/vlossom/src/framework/overlay-helper.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/framework/overlay-helper.ts b/packages/vlossom/src/framework/overlay-helper.ts
index 7d1a1f0..d2f393f 100644
--- a/packages/vlossom/src/framework/overlay-helper.ts
+++ b/packages/vlossom/src/framework/overlay-helper.ts
@@ -29,6 +29,13 @@ export function mountOverlayApp(parentApp: App) {
 
     // 마운트
     overlayApp.mount(overlayContainer);
+
+    // parent app이 해제되면 overlay app과 container도 함께 제거
+    parentApp.onUnmount(() => {
+        overlayApp?.unmount();
+        overlayApp = null;
+        overlayContainer.remove();
+    });
 }
 
 export function inheritAppContext(parent: App, overlay: App) {
-- 
2.43.0


From d3a4c5adbcd6722bfcdba042c16e827157f0d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:16 +0000
Subject: [PATCH 14/42] fix: look the toast container up before placing its
 view

---
 packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
index cb27c5d..3382c2d 100644
--- a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
+++ b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
@@ -12,10 +12,6 @@ export function createToastPlugin(): ToastPlugin {
             const overlayContainerStore = useOverlayContainerStore();
             const toastStore = useToastContainerStore();
 
-            // mount ToastView to OverlayWrapper
-            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
-            overlayContainerStore.push(overlayId, container, 'VsToastView');
-
             const containerElement: HTMLElement | null = document.querySelector(container);
 
             if (!containerElement) {
@@ -26,6 +22,9 @@ export function createToastPlugin(): ToastPlugin {
             if (!containerElement.style.position) {
                 containerElement.style.position = 'relative';
             }
+            // mount ToastView to OverlayWrapper
+            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
+            overlayContainerStore.push(overlayId, container, 'VsToastView');
 
             const toastInfo = createToastInfo(content, options);
             toastStore.push(container, toastInfo);
-- 
2.43.0


From a2a05e416c8c7ab04ac0c06580082168e990790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:34:17 +0000
Subject: [PATCH 15/42] fix: clear the text when a textarea is cleared

---
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index cd0262d..469cefe 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -141,6 +141,9 @@ export default defineComponent({
                     onChange: () => {
                         inputValue.value = convertValue(inputValue.value);
                     },
+                    onClear: () => {
+                        inputValue.value = '';
+                    },
                 },
             },
         );
-- 
2.43.0


From 0066c783d3bbdef1bb9e7c990f06112f668b620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:34:17 +0000
Subject: [PATCH 16/42] fix: honour noDefaultRules in the file drop

---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 5826738..43ca53c 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -144,6 +144,7 @@ export default defineComponent({
             messages,
             multiple,
             rules,
+            noDefaultRules,
             state,
             max,
             min,
@@ -206,6 +207,7 @@ export default defineComponent({
                 messages: computed(() => [...messages.value, ...componentMessages.value]),
                 rules,
                 defaultRules: computed(() => [requiredCheck, acceptCheck]),
+                noDefaultRules,
                 state,
                 callbacks: {
                     onMounted: () => {
-- 
2.43.0


From 4d6cc2bfa3906c4f1601f253bb7e501c02e748f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:29 +0000
Subject: [PATCH 17/42] fix: ask table selectable/expandable with the item's
 own index in row cells

---
 .../vlossom/src/components/vs-table/VsTableCheckboxCell.vue | 6 +++---
 .../vlossom/src/components/vs-table/VsTableExpandCell.vue   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
index 9e6d936..bc572f6 100644
--- a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
@@ -3,7 +3,7 @@
         <td class="vs-table-td" v-if="anySelectable" :style="cellStyle" @click.prevent.stop="selectRow(cells, $event)">
             <slot name="select" :item="getRowItem(cells)" :value="isSelected(cells)" :rowIdx>
                 <vs-checkbox
-                    v-if="isRowSelectable(cells, rowIdx)"
+                    v-if="isRowSelectable(cells)"
                     multiple
                     :color-scheme
                     :disabled="loading"
@@ -88,12 +88,12 @@ export default defineComponent({
             };
         });
 
-        function isRowSelectable(row: VsTableCell[], rowIdx: number): boolean {
+        function isRowSelectable(row: VsTableCell[]): boolean {
             if (!isVsTableBodyRow(row)) {
                 return false;
             }
             const item = getRowItem(row);
-            return selectable.value(item, rowIdx, items.value);
+            return selectable.value(item, row[0]?.rowIdx, items.value);
         }
 
         function isSelected(row: VsTableCell[]): boolean {
diff --git a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
index ed89ae0..5f1db09 100644
--- a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
@@ -2,7 +2,7 @@
     <template v-if="isVsTableBodyRow(cells)">
         <td class="vs-table-td vs-table-expand-handle" :style="cellStyle">
             <vs-button
-                v-if="isExpandable(cells, rowIdx)"
+                v-if="isExpandable(cells)"
                 :color-scheme
                 :disabled="loading"
                 :style-set="expandButtonStyleSet"
@@ -64,8 +64,8 @@ export default defineComponent({
             color: 'var(--vs-cs-font-colored)',
         }));
 
-        function isExpandable(cells: VsTableBodyCell[], rowIdx: number): boolean {
-            return expandable.value(getRowItem(cells), rowIdx, items.value);
+        function isExpandable(cells: VsTableBodyCell[]): boolean {
+            return expandable.value(getRowItem(cells), cells[0]?.rowIdx, items.value);
         }
 
         function expandRow(cells: VsTableCell[], event: MouseEvent): void {
-- 
2.43.0


From 28d807be17069658e939e3e928309fd28a91973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:29 +0000
Subject: [PATCH 18/42] fix: rebuild table rows when equal but new items are
 given

---
 .../src/components/vs-table/models/table-cell-builder.ts        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
index 5add0f2..49cd7a2 100644
--- a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
+++ b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
@@ -29,7 +29,7 @@ export class TableCellBuilder {
     }
 
     public updateItems(items: VsTableItem[]): TableCellBuilder {
-        if (objectUtil.isEqual(this.items, items)) {
+        if (this.items === items) {
             return this;
         }
         this.items = items;
-- 
2.43.0


From 8eda251a7162816c9000c47737aefb7010bc4882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:10 +0000
Subject: [PATCH 19/42] fix: apply the configured color scheme of toggle, theme
 button and date picker

---
 .../src/components/vs-date-picker/VsDatePicker.vue        | 8 ++++++--
 .../src/components/vs-theme-button/VsThemeButton.vue      | 5 +++--
 packages/vlossom/src/components/vs-toggle/VsToggle.vue    | 5 +++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 055d0ff..374aa52 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -27,7 +27,7 @@
             :disabled="computedDisabled"
             :readonly="computedReadonly"
             :state="computedState"
-            :color-scheme
+            :color-scheme="colorScheme || computedColorScheme"
             :type="deceiveType"
             :no-clear
             :name
@@ -71,7 +71,7 @@ import {
 } from 'vue';
 import { VsComponent, type Size } from '@/declaration';
 import { logUtil } from '@/utils';
-import { useStyleSet, useInput } from '@/composables';
+import { useColorScheme, useStyleSet, useInput } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps } from '@/props';
 
 import { FORMAT_PATTERNS, TYPE_TO_FORMAT } from './constants';
@@ -161,6 +161,7 @@ export default defineComponent({
     emits: ['update:modelValue', 'update:changed', 'update:valid', 'change', 'focus', 'blur', 'clear', 'invalid'],
     setup(props, { emit }) {
         const {
+            colorScheme,
             styleSet,
             type,
             modelValue,
@@ -181,6 +182,8 @@ export default defineComponent({
 
         const inputValue: Ref<VsDatePickerValueType> = ref(modelValue.value);
 
+        const { computedColorScheme } = useColorScheme(componentName, colorScheme);
+
         const { componentStyleSet } = useStyleSet<VsDatePickerStyleSet>(componentName, styleSet);
 
         const { requiredCheck, minCheck, maxCheck } = useVsDatePickerRules(required, min, max);
@@ -312,6 +315,7 @@ export default defineComponent({
 
             // Computed
             deceiveType,
+            computedColorScheme,
             componentStyleSet,
             displayValue,
             computedPlaceholder,
diff --git a/packages/vlossom/src/components/vs-theme-button/VsThemeButton.vue b/packages/vlossom/src/components/vs-theme-button/VsThemeButton.vue
index 5ff0d71..237e63e 100644
--- a/packages/vlossom/src/components/vs-theme-button/VsThemeButton.vue
+++ b/packages/vlossom/src/components/vs-theme-button/VsThemeButton.vue
@@ -2,7 +2,7 @@
     <vs-toggle
         :model-value="isDarkTheme"
         class="vs-theme-button"
-        :color-scheme
+        :color-scheme="colorScheme || computedColorScheme"
         :style-set="componentStyleSet"
         :style="styleSetVariables"
         :aria-label="`Switch to ${isDarkTheme ? 'light' : 'dark'} mode`"
@@ -40,7 +40,7 @@ export default defineComponent({
         const $vs = useVlossom();
         const { colorScheme, styleSet } = toRefs(props);
 
-        const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
+        const { computedColorScheme, colorSchemeClass } = useColorScheme(componentName, colorScheme);
 
         const { componentStyleSet, styleSetVariables } = useStyleSet<VsThemeButtonStyleSet>(componentName, styleSet);
 
@@ -58,6 +58,7 @@ export default defineComponent({
         return {
             changeTheme,
             isDarkTheme,
+            computedColorScheme,
             colorSchemeClass,
             componentStyleSet,
             styleSetVariables,
diff --git a/packages/vlossom/src/components/vs-toggle/VsToggle.vue b/packages/vlossom/src/components/vs-toggle/VsToggle.vue
index 0d07e1b..714c93d 100644
--- a/packages/vlossom/src/components/vs-toggle/VsToggle.vue
+++ b/packages/vlossom/src/components/vs-toggle/VsToggle.vue
@@ -2,7 +2,7 @@
     <vs-button
         class="vs-toggle"
         type="button"
-        :color-scheme
+        :color-scheme="colorScheme || computedColorScheme"
         :style-set="componentStyleSet"
         :circle
         :disabled
@@ -44,7 +44,7 @@ export default defineComponent({
     setup(props, { emit }) {
         const { colorScheme, styleSet, modelValue, disabled } = toRefs(props);
 
-        const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
+        const { computedColorScheme, colorSchemeClass } = useColorScheme(componentName, colorScheme);
 
         const { componentStyleSet, styleSetVariables } = useStyleSet<VsToggleStyleSet>(componentName, styleSet);
 
@@ -67,6 +67,7 @@ export default defineComponent({
         });
 
         return {
+            computedColorScheme,
             colorSchemeClass,
             componentStyleSet,
             styleSetVariables,
-- 
2.43.0


From c72a6619cdd2d91b6c1b3887cbee4e73d529d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:10 +0000
Subject: [PATCH 20/42] fix: apply plain styles of the date picker style set

---
 .../vlossom/src/components/vs-date-picker/VsDatePicker.vue    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 374aa52..6dd0891 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -22,6 +22,7 @@
             ref="dateInputRef"
             class="vs-date-picker"
             :model-value="displayValue"
+            :style="componentInlineStyle"
             :style-set="componentStyleSet.$input"
             :placeholder="computedPlaceholder"
             :disabled="computedDisabled"
@@ -184,7 +185,7 @@ export default defineComponent({
 
         const { computedColorScheme } = useColorScheme(componentName, colorScheme);
 
-        const { componentStyleSet } = useStyleSet<VsDatePickerStyleSet>(componentName, styleSet);
+        const { componentStyleSet, componentInlineStyle } = useStyleSet<VsDatePickerStyleSet>(componentName, styleSet);
 
         const { requiredCheck, minCheck, maxCheck } = useVsDatePickerRules(required, min, max);
 
@@ -317,6 +318,7 @@ export default defineComponent({
             deceiveType,
             computedColorScheme,
             componentStyleSet,
+            componentInlineStyle,
             displayValue,
             computedPlaceholder,
             computedMessages,
-- 
2.43.0


From 0609111396af9c25a4a2b760794e48e6b03087d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:10 +0000
Subject: [PATCH 21/42] fix: let the drawer style set decide the size when no
 size prop is given

---
 packages/vlossom/src/components/vs-drawer/VsDrawer.vue | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
index 40e7576..884adfc 100644
--- a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
+++ b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
@@ -127,7 +127,7 @@ export default defineComponent({
         const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
         const drawerSize = computed(() => {
             if (!size.value) {
-                return DRAWER_SIZE.sm;
+                return undefined;
             }
             if (SIZES.includes(size.value as Size)) {
                 return DRAWER_SIZE[size.value as Size];
@@ -135,7 +135,7 @@ export default defineComponent({
             return stringUtil.toStringSize(size.value);
         });
 
-        const baseStyleSet: ComputedRef<VsDrawerStyleSet> = computed(() => ({}));
+        const baseStyleSet: ComputedRef<VsDrawerStyleSet> = computed(() => ({ $size: DRAWER_SIZE.sm }));
 
         const additionalStyleSet: ComputedRef<Partial<VsDrawerStyleSet>> = computed(() => {
             return objectUtil.shake({
@@ -202,7 +202,7 @@ export default defineComponent({
             layoutStore.setDrawer({
                 isOpen: isOpen.value,
                 placement: placement.value,
-                size: drawerSize.value || DRAWER_SIZE.sm,
+                size: componentStyleSet.value.$size || DRAWER_SIZE.sm,
                 pushContainer: pushContainer.value,
             });
         });
-- 
2.43.0


From 5eeab3a7446b020751c69be5ff02224382b78ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:03:00 +0000
Subject: [PATCH 22/42] fix: do not remember failed GitHub reads as empty
 results

---
 .../src/services/github-registry-service.ts   | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f367683..12324c0 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -326,6 +326,15 @@ async function fetchRawOptional(path: string, ref: string): Promise<string> {
     }
 }
 
+async function fetchDirectoryOptional(path: string, ref: string): Promise<GitHubContentEntry[]> {
+    try {
+        return await fetchDirectoryCached(path, ref);
+    } catch (error) {
+        if (isGitHubNotFound(error)) return [];
+        throw error;
+    }
+}
+
 function getComponentLookupKey(ref: string, name: string): string {
     return `${ref}:component:${name}`;
 }
@@ -383,6 +392,7 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
     if (cached) return { ...context, ...cached, warnings: [...context.warnings, ...cached.warnings] };
 
     const refs = getCandidateRefs(context.detectedVersion);
+    let isConclusive = true;
     for (const ref of refs) {
         try {
             await fetchRawCached('packages/vlossom/package.json', ref);
@@ -397,13 +407,16 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                     `Could not find a GitHub ref for Vlossom v${context.detectedVersion}; falling back to main, so version-specific guidance may be weakened.`,
                 );
             }
-            refCache.set(cacheKey, {
-                ...resolved,
-                warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
-            });
+            if (isConclusive) {
+                refCache.set(cacheKey, {
+                    ...resolved,
+                    warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
+                });
+            }
             return resolved;
-        } catch {
-            // try the next candidate ref
+        } catch (error) {
+            // try the next candidate ref; a ref that could not be checked may still exist, so do not remember the outcome
+            if (!isGitHubNotFound(error)) isConclusive = false;
         }
     }
 
@@ -530,7 +543,7 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
     const cached = directiveCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryOptional(DIRECTIVES_PATH, ref);
     const directives = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.startsWith('vs-')),
         GITHUB_FETCH_CONCURRENCY,
@@ -596,7 +609,7 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
     const cached = publicComposableDirsCache.get(ref);
     if (cached) return cached;
 
-    const promise = fetchRawCached(`${COMPOSABLES_PATH}/index.ts`, ref)
+    const promise = fetchRawOptional(`${COMPOSABLES_PATH}/index.ts`, ref)
         .then((content) => {
             const dirs = new Set<string>();
             for (const match of content.matchAll(/from\s+['"]\.\/([^/'"]+)\/[^'"]+['"]/g)) {
@@ -604,7 +617,10 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
             }
             return dirs;
         })
-        .catch(() => new Set<string>());
+        .catch((error: unknown) => {
+            publicComposableDirsCache.delete(ref);
+            throw error;
+        });
     publicComposableDirsCache.set(ref, promise);
     return promise;
 }
@@ -617,7 +633,7 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
 
     const [publicDirs, entries] = await Promise.all([
         loadPublicComposableDirs(ref),
-        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(() => []),
+        fetchDirectoryOptional(COMPOSABLES_PATH, ref),
     ]);
     const composables = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && !entry.name.includes('.') && entry.name !== '__tests__'),
@@ -690,7 +706,7 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
     const cached = pluginCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryOptional(PLUGINS_PATH, ref);
     const plugins = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.endsWith('-plugin')),
         GITHUB_FETCH_CONCURRENCY,
@@ -734,7 +750,10 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
             const fenced = extractFenceAfter(lines, setupIndex);
             return fenced || SETUP_EXAMPLE_FALLBACK;
         })
-        .catch(() => SETUP_EXAMPLE_FALLBACK);
+        .catch((error: unknown) => {
+            if (!isGitHubNotFound(error)) setupExampleCache.delete(ref);
+            return SETUP_EXAMPLE_FALLBACK;
+        });
     setupExampleCache.set(ref, promise);
     return promise;
 }
@@ -784,7 +803,7 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
     const files = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
     const map = new Map<string, CssToken>();
     for (const file of files) {
-        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch(() => '');
+        const css = await fetchRawOptional(`${STYLES_PATH}/${file}`, ref);
         for (const token of parseCssVars(css)) {
             const entry = map.get(token.name) ?? {
                 name: token.name,
-- 
2.43.0


From dca8ec6bc029e833cf62f0ac31c2a96e7508bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:26 +0000
Subject: [PATCH 23/42] fix: only point search and reference results to
 resources the server offers

---
 .../internal/reference/reference-service.ts   |  2 --
 .../search/component-search-service.ts        | 32 ++++++++++---------
 packages/vlossom-mcp/src/internal/types.ts    |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/reference/reference-service.ts b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
index f389f94..17ff480 100644
--- a/packages/vlossom-mcp/src/internal/reference/reference-service.ts
+++ b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
@@ -233,7 +233,6 @@ async function directiveReference(
             ...directive,
             versionSupport: getVersionSupport(directive.availableVersion, versionContext),
         } as unknown as Record<string, unknown>,
-        resourceUris: [{ uri: `vlossom://directives/${directive.name}`, description: 'Directive reference' }],
         next_actions: [
             {
                 tool: 'get_vlossom_reference',
@@ -292,7 +291,6 @@ async function composableReference(
             ...composable,
             versionSupport: getVersionSupport(composable.availableVersion, versionContext),
         } as unknown as Record<string, unknown>,
-        resourceUris: [{ uri: `vlossom://composables/${composable.name}`, description: 'Composable reference' }],
         next_actions: [
             {
                 tool: 'get_vlossom_reference',
diff --git a/packages/vlossom-mcp/src/internal/search/component-search-service.ts b/packages/vlossom-mcp/src/internal/search/component-search-service.ts
index 7d68217..7dec29b 100644
--- a/packages/vlossom-mcp/src/internal/search/component-search-service.ts
+++ b/packages/vlossom-mcp/src/internal/search/component-search-service.ts
@@ -56,7 +56,7 @@ function normalizeQuery(query: string | undefined): string {
     return (query ?? '').trim();
 }
 
-function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string {
+function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string | undefined {
     switch (type) {
         case 'component':
             return `vlossom://components/${id}`;
@@ -69,7 +69,18 @@ function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string {
         case 'changelog':
             return 'vlossom://changelog';
         default:
-            return `vlossom://${type}s/${id}`;
+            return undefined;
+    }
+}
+
+function targetResourceUri(target: Exclude<SearchTarget, 'all'>): string | undefined {
+    switch (target) {
+        case 'component':
+            return 'vlossom://components';
+        case 'rule':
+            return 'vlossom://rules/coding';
+        default:
+            return resourceUri(target, '');
     }
 }
 
@@ -334,6 +345,7 @@ export async function searchVlossom(input: SearchVlossomInput): Promise<SearchVl
         if (target !== 'all') {
             const results = await searchByTarget(target, query, limit, versionContext);
             const coverage = intent === 'build-ui' && query ? await resolveCoverage(query, versionContext) : undefined;
+            const targetUri = targetResourceUri(target);
             return {
                 status: results.length > 0 || coverage?.length ? 'ok' : 'empty',
                 query: query || undefined,
@@ -344,19 +356,9 @@ export async function searchVlossom(input: SearchVlossomInput): Promise<SearchVl
                 versionContext,
                 coverage,
                 expandedTerms,
-                resourceUris: [
-                    {
-                        uri:
-                            target === 'component'
-                                ? 'vlossom://components'
-                                : target === 'token'
-                                  ? 'vlossom://tokens/css'
-                                  : target === 'option'
-                                    ? 'vlossom://options/create-vlossom'
-                                    : `vlossom://${target}s`,
-                        description: `Registry-backed Vlossom ${target} reference`,
-                    },
-                ],
+                resourceUris: targetUri
+                    ? [{ uri: targetUri, description: `Registry-backed Vlossom ${target} reference` }]
+                    : undefined,
                 next_actions:
                     results.length > 0
                         ? [
diff --git a/packages/vlossom-mcp/src/internal/types.ts b/packages/vlossom-mcp/src/internal/types.ts
index 782e75e..9b351d2 100644
--- a/packages/vlossom-mcp/src/internal/types.ts
+++ b/packages/vlossom-mcp/src/internal/types.ts
@@ -31,7 +31,7 @@ export interface SearchableResult {
     id: string;
     name: string;
     description: string;
-    resourceUri: string;
+    resourceUri?: string;
     score?: number;
     versionSupport?: VersionSupport;
 }
-- 
2.43.0


From 81641072cb5cbd1bff1b228582cfce4a7faae1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:26 +0000
Subject: [PATCH 24/42] fix: use an existing style token in StyleSet scaffolds

---
 .../vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
index a0bcce7..bbabb34 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
@@ -52,7 +52,7 @@ export async function scaffoldStyleSet(
     if (variableKeys.length > 0) {
         lines.push('  variables: {');
         for (const key of variableKeys) {
-            lines.push(`    // ${key}: 'var(--vs-comp-bg)',`);
+            lines.push(`    // ${key}: 'var(--vs-cs-bg)',`);
         }
         lines.push('  },');
     }
-- 
2.43.0


From ac4a0a91ce92362261bd24127e0dc8abf9327ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:26 +0000
Subject: [PATCH 25/42] fix: describe VsDatePicker in the component
 relationships

---
 packages/vlossom-mcp/src/data/component-relationships.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vlossom-mcp/src/data/component-relationships.ts b/packages/vlossom-mcp/src/data/component-relationships.ts
index 9af1705..9e6655a 100644
--- a/packages/vlossom-mcp/src/data/component-relationships.ts
+++ b/packages/vlossom-mcp/src/data/component-relationships.ts
@@ -23,6 +23,7 @@ export const COMPONENT_RELATIONSHIPS: RelationshipsData = {
     VsButton: { children: ['VsLoading'], siblings: ['VsForm', 'VsInput', 'VsToast', 'VsPagination', 'VsTabs'] },
     VsCheckbox: { children: ['VsInputWrapper'], siblings: ['VsRadio', 'VsSwitch', 'VsSelect'] },
     VsChip: { children: [], siblings: ['VsSelect', 'VsFileDrop'] },
+    VsDatePicker: { children: ['VsInputWrapper'], siblings: ['VsInput', 'VsSelect', 'VsForm'] },
     VsDrawer: { children: ['VsDimmed', 'VsFocusTrap', 'VsInnerScroll'], siblings: ['VsModal', 'VsFloating'] },
     VsExpandable: { children: [], siblings: ['VsAccordion'] },
     VsFileDrop: { children: ['VsChip', 'VsInputWrapper'], siblings: ['VsInput', 'VsSelect'] },
-- 
2.43.0


From a9d703668f1bdb2350770293022ab922fd37df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:29 +0000
Subject: [PATCH 26/42] fix: ignore non-string vlossom ranges in package.json

---
 packages/vlossom-mcp/src/internal/version/version-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/version/version-service.ts b/packages/vlossom-mcp/src/internal/version/version-service.ts
index f5ef601..46ad22b 100644
--- a/packages/vlossom-mcp/src/internal/version/version-service.ts
+++ b/packages/vlossom-mcp/src/internal/version/version-service.ts
@@ -31,7 +31,8 @@ function parsePackageJson(packageJson: string | undefined): Record<string, strin
 }
 
 export function extractVlossomVersionRange(packageJson: string | undefined): string | undefined {
-    return parsePackageJson(packageJson).vlossom;
+    const range: unknown = parsePackageJson(packageJson).vlossom;
+    return typeof range === 'string' ? range : undefined;
 }
 
 export function normalizeVersionRange(value: string | undefined): string | undefined {
-- 
2.43.0


From b86a7899d699924e71c5710e0cb2b137ab4371eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:35 +0000
Subject: [PATCH 27/42] fix: point failed source lookups to the resolved
 revision

---
 .../vlossom-mcp/src/internal/reference/reference-service.ts     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/reference/reference-service.ts b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
index 17ff480..56f73d8 100644
--- a/packages/vlossom-mcp/src/internal/reference/reference-service.ts
+++ b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
@@ -122,7 +122,7 @@ async function includeComponentField(
             const path = getComponentSourcePath(meta);
             reference.source = {
                 path,
-                url: getComponentSourceUrl(meta),
+                url: getComponentSourceUrl(meta, versionContext.resolvedRef),
                 missing: true,
                 message: error instanceof Error ? error.message : 'Failed to fetch component source.',
             };
-- 
2.43.0


From 39d812522ecf650aba6f1a8bcab7705ab1226771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:35 +0000
Subject: [PATCH 28/42] fix: report each call's own requested version for a
 remembered revision

---
 .../vlossom-mcp/src/services/github-registry-service.ts  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 12324c0..0d4b05a 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -389,7 +389,14 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
 
     const cacheKey = context.detectedVersion ?? 'main';
     const cached = refCache.get(cacheKey);
-    if (cached) return { ...context, ...cached, warnings: [...context.warnings, ...cached.warnings] };
+    if (cached) {
+        return {
+            ...context,
+            resolvedRef: cached.resolvedRef,
+            fallbackRef: cached.fallbackRef,
+            warnings: [...context.warnings, ...cached.warnings],
+        };
+    }
 
     const refs = getCandidateRefs(context.detectedVersion);
     let isConclusive = true;
-- 
2.43.0


From 170aa84dc97dd765f5dcbed8f3b707e0e1879bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:39:50 +0000
Subject: [PATCH 29/42] fix: reject component names that are not plain
 identifiers

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 0d4b05a..0057878 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -339,9 +339,11 @@ function getComponentLookupKey(ref: string, name: string): string {
     return `${ref}:component:${name}`;
 }
 
+const COMPONENT_NAME_PATTERN = /^[A-Za-z][A-Za-z0-9]*(?:-[A-Za-z0-9]+)*$/;
+
 function normalizeComponentName(name: string): { name: string; kebabName: string } | undefined {
     const trimmed = name.trim();
-    if (!trimmed) return undefined;
+    if (!COMPONENT_NAME_PATTERN.test(trimmed)) return undefined;
     const componentName = trimmed.includes('-') ? kebabToPascalCase(trimmed) : trimmed;
     return { name: componentName, kebabName: toKebabCase(componentName) };
 }
-- 
2.43.0


From 461e5e02011c2439f5cf7860485290ba67de36ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:39:51 +0000
Subject: [PATCH 30/42] fix: keep the description inside the comment of
 scaffolded code

---
 .../src/internal/scaffold/component-usage-scaffolder.ts        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
index 3652b5f..8c75307 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
@@ -136,7 +136,8 @@ function buildTemplate(description: string, components: ComponentMeta[]): string
 }
 
 function titleFromDescription(description: string, maxLength: number): string {
-    const trimmed = description.trim();
+    // a run of hyphens could close the comment the title is placed in
+    const trimmed = description.replace(/-{2,}/g, '-').trim();
     if (!trimmed) return 'Vlossom UI';
     return trimmed.length > maxLength ? `${trimmed.slice(0, maxLength - 1)}...` : trimmed;
 }
-- 
2.43.0


From c9ea2267944387ae0a568d5a5c7d04ebfd82838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:55 +0000
Subject: [PATCH 31/42] fix: give back the layout space of a header, footer or
 drawer when it unmounts

---
 .../src/components/vs-drawer/VsDrawer.vue      | 18 ++++++++++++++++++
 .../src/components/vs-footer/VsFooter.vue      | 16 +++++++++++++++-
 .../src/components/vs-header/VsHeader.vue      | 16 +++++++++++++++-
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
index 884adfc..0008e1f 100644
--- a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
+++ b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
@@ -42,6 +42,7 @@ import {
     defineComponent,
     inject,
     onBeforeMount,
+    onBeforeUnmount,
     toRefs,
     useTemplateRef,
     watch,
@@ -195,10 +196,25 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
+        let layoutPlacement: DrawerPlacement | null = null; // the side of the layout this drawer has set
+
+        function leaveLayout() {
+            if (!layoutPlacement) {
+                return;
+            }
+            layoutStore.setDrawer({ isOpen: false, pushContainer: false, placement: layoutPlacement, size: '' });
+            layoutPlacement = null;
+        }
+
         watchEffect(() => {
             if (!isLayoutChild.value) {
+                leaveLayout();
                 return;
             }
+            if (layoutPlacement !== placement.value) {
+                leaveLayout();
+            }
+            layoutPlacement = placement.value;
             layoutStore.setDrawer({
                 isOpen: isOpen.value,
                 placement: placement.value,
@@ -237,6 +253,8 @@ export default defineComponent({
             return style;
         });
 
+        onBeforeUnmount(leaveLayout);
+
         onBeforeMount(() => {
             if (initialOpen.value || modelValue.value) {
                 openDrawer();
diff --git a/packages/vlossom/src/components/vs-footer/VsFooter.vue b/packages/vlossom/src/components/vs-footer/VsFooter.vue
index 7390dad..0006407 100644
--- a/packages/vlossom/src/components/vs-footer/VsFooter.vue
+++ b/packages/vlossom/src/components/vs-footer/VsFooter.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, onBeforeUnmount, watchEffect } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,8 +62,19 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
+        let isInLayout = false;
+
+        function leaveLayout() {
+            if (!isInLayout) {
+                return;
+            }
+            layoutStore.setFooter({ position: 'relative', height: '' });
+            isInLayout = false;
+        }
+
         watchEffect(() => {
             if (!isLayoutChild.value) {
+                leaveLayout();
                 return;
             }
             const footerLayout: BarLayout = {
@@ -71,8 +82,11 @@ export default defineComponent({
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
             layoutStore.setFooter(footerLayout);
+            isInLayout = true;
         });
 
+        onBeforeUnmount(leaveLayout);
+
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
 });
diff --git a/packages/vlossom/src/components/vs-header/VsHeader.vue b/packages/vlossom/src/components/vs-header/VsHeader.vue
index f16268f..cb9d283 100644
--- a/packages/vlossom/src/components/vs-header/VsHeader.vue
+++ b/packages/vlossom/src/components/vs-header/VsHeader.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, onBeforeUnmount, watchEffect } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,8 +62,19 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
+        let isInLayout = false;
+
+        function leaveLayout() {
+            if (!isInLayout) {
+                return;
+            }
+            layoutStore.setHeader({ position: 'relative', height: '' });
+            isInLayout = false;
+        }
+
         watchEffect(() => {
             if (!isLayoutChild.value) {
+                leaveLayout();
                 return;
             }
             const headerLayout: BarLayout = {
@@ -71,8 +82,11 @@ export default defineComponent({
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
             layoutStore.setHeader(headerLayout);
+            isInLayout = true;
         });
 
+        onBeforeUnmount(leaveLayout);
+
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
 });
-- 
2.43.0


From b86c582f3faefc41d233ceae1eea5ae6fd3235b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:42 +0000
Subject: [PATCH 32/42] fix: take an overlay off the stack when it is closed
 and unmounted in one tick

---
 .../overlay-callback/overlay-callback-composable.ts           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 88e0ccb..9d1e2d3 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -27,6 +27,7 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         } else {
             isUnmounting.value = true;
             overlayCallbackStore.remove(pushedId);
+            pushedId = '';
 
             setTimeout(() => {
                 isUnmounting.value = false;
@@ -35,7 +36,8 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
     });
 
     onBeforeUnmount(() => {
-        if (isActivated.value) {
+        // it may have been deactivated just now, before the watcher took it off the stack
+        if (pushedId) {
             overlayCallbackStore.remove(pushedId);
         }
     });
-- 
2.43.0


From 3ebffba385b3f30530cb8600c228fb4a56bc5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:08 +0000
Subject: [PATCH 33/42] fix: stop following the target as soon as a floating
 element unmounts

---
 packages/vlossom/src/components/vs-floating/VsFloating.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-floating/VsFloating.vue b/packages/vlossom/src/components/vs-floating/VsFloating.vue
index 07baf78..5b0535b 100644
--- a/packages/vlossom/src/components/vs-floating/VsFloating.vue
+++ b/packages/vlossom/src/components/vs-floating/VsFloating.vue
@@ -131,7 +131,7 @@ export default defineComponent({
 
         onBeforeUnmount(() => {
             cleanUpTimer();
-            hideFloating();
+            disappear();
         });
 
         return {
-- 
2.43.0


From f2f3a81131796bb08a2fef9c1a7d8d1e527020b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:34 +0000
Subject: [PATCH 34/42] fix: remove the click-outside listener of a select that
 unmounts while open

---
 packages/vlossom/src/components/vs-select/VsSelect.vue | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index b25905e..7ea20a4 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -316,6 +316,9 @@ export default defineComponent({
                     onChange: () => {
                         inputValue.value = convertValue(inputValue.value);
                     },
+                    onBeforeUnmount: () => {
+                        removeClickOutsideListener();
+                    },
                     onClear,
                 },
             },
-- 
2.43.0


From 6fe0ed714f27caff62f7b9c19ac6290efe3fdbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:58 +0000
Subject: [PATCH 35/42] fix: remove tooltip listeners from the element they
 were added to

---
 packages/vlossom/src/components/vs-tooltip/VsTooltip.vue | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
index 741d29b..7b685f9 100644
--- a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
+++ b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
@@ -192,8 +192,10 @@ export default defineComponent({
             tooltipOver.value = false;
         }
 
+        let targetElement: Element | null = null; // the element listened to, the target may change meanwhile
+
         function addTargetEventListeners() {
-            const targetElement = document.querySelector(effectiveTarget.value);
+            targetElement = document.querySelector(effectiveTarget.value);
             if (!targetElement) {
                 return;
             }
@@ -206,7 +208,6 @@ export default defineComponent({
         }
 
         function removeTargetEventListeners() {
-            const targetElement = document.querySelector(effectiveTarget.value);
             if (!targetElement) {
                 return;
             }
-- 
2.43.0


From 767710db05b87d57d9bac7dc179e44c98e68c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:37:10 +0000
Subject: [PATCH 36/42] fix: keep the original styles when a scroll lock is
 taken again before the next frame

---
 .../src/composables/scroll-lock/scroll-lock-composable.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
index d8b7a9a..cf2cb6a 100644
--- a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
+++ b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
@@ -11,6 +11,7 @@ export function useScrollLock(container: string = 'body') {
     const containerElement: HTMLElement | null = document.querySelector(container);
 
     const isLocked = ref(false);
+    let isRestoring = false;
 
     const originalState = ref<ScrollLockState>({
         overflow: '',
@@ -57,6 +58,7 @@ export function useScrollLock(container: string = 'body') {
         containerElement.style.overflow = originalState.value.overflow;
         containerElement.style.paddingRight = originalState.value.paddingRight;
         containerElement.style.paddingBottom = originalState.value.paddingBottom;
+        isRestoring = false;
     }
 
     function lock() {
@@ -64,7 +66,10 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        saveOriginalState();
+        // until they are restored, the current styles are not the original ones
+        if (!isRestoring) {
+            saveOriginalState();
+        }
         isLocked.value = true;
         requestAnimationFrame(applyScrollLockStyles);
     }
@@ -75,6 +80,7 @@ export function useScrollLock(container: string = 'body') {
         }
 
         isLocked.value = false;
+        isRestoring = true;
         requestAnimationFrame(restoreOriginalState);
     }
 
-- 
2.43.0


From 22ac8b346ad3686b724cd4c6f147c7e0fdb6d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:57 +0000
Subject: [PATCH 37/42] fix: hide the label of radios, switches and checkbox
 sets when noLabel is set

---
 packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue | 1 +
 packages/vlossom/src/components/vs-radio/VsRadio.vue          | 1 +
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue       | 1 +
 packages/vlossom/src/components/vs-switch/VsSwitch.vue        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 3310bc5..f313b5c 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -8,6 +8,7 @@
         :width
         :grid
         :label
+        :no-label
         :required
         :no-messages
         :shake
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index b0b4692..278bdf1 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -7,6 +7,7 @@
         :messages="computedMessages"
         :grid
         :label
+        :no-label
         :no-messages
         :required
         :shake
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index d4c55dc..89c86b0 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -8,6 +8,7 @@
         :width
         :grid
         :label
+        :no-label
         :required
         :no-messages
         :shake
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 66b6449..4db5001 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -6,6 +6,7 @@
         :grid
         :id="computedId"
         :label
+        :no-label
         :required
         :disabled="computedDisabled"
         :messages="computedMessages"
-- 
2.43.0


From ed95346e38ba02dabff48f5cd7bf2b8f5348f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:27 +0000
Subject: [PATCH 38/42] fix: reject an empty required number input

---
 packages/vlossom/src/components/vs-input/vs-input-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-input/vs-input-rules.ts b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
index 445e4fe..26b91f9 100644
--- a/packages/vlossom/src/components/vs-input/vs-input-rules.ts
+++ b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
@@ -8,7 +8,7 @@ export function useVsInputRules(
     type: Ref<VsInputType>,
 ) {
     function requiredCheck(v: VsInputValueType) {
-        if (required.value && v === '') {
+        if (required.value && (v === '' || v === null)) {
             return 'required';
         }
 
-- 
2.43.0


From 6cda1d3369913ffe42a80121fb07da6f621be23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:27 +0000
Subject: [PATCH 39/42] fix: accept zero and false as chosen values of a
 required select

---
 packages/vlossom/src/components/vs-select/vs-select-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/vs-select-rules.ts b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
index cb81f96..7421d75 100644
--- a/packages/vlossom/src/components/vs-select/vs-select-rules.ts
+++ b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
@@ -13,7 +13,7 @@ export function useSelectRules(
         if (multiple.value) {
             return !Array.isArray(inputValue) || inputValue.length === 0 ? 'required' : '';
         }
-        return !inputValue ? 'required' : '';
+        return inputValue === null || inputValue === undefined || inputValue === '' ? 'required' : '';
     }
 
     function maxCheck(inputValue: any): string {
-- 
2.43.0


From 06d95ed4abb2074003131c798621655a5c4c80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:27 +0000
Subject: [PATCH 40/42] fix: tell options of a select apart by their position

---
 .../src/composables/option-list/option-list-composable.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/option-list/option-list-composable.ts b/packages/vlossom/src/composables/option-list/option-list-composable.ts
index 3a0a737..472c733 100644
--- a/packages/vlossom/src/composables/option-list/option-list-composable.ts
+++ b/packages/vlossom/src/composables/option-list/option-list-composable.ts
@@ -16,7 +16,7 @@ export function useOptionList(
             const value = getOptionValue(option);
 
             return {
-                id: stringUtil.hash(label + index), // unique id for each option
+                id: `${stringUtil.hash(label)}-${index}`, // unique id for each option
                 item: option,
                 label,
                 value,
-- 
2.43.0


From 4148b9784fe6592f920becd440373a7a08c397dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:35 +0000
Subject: [PATCH 41/42] fix: keep chosen options of a select when its options
 move

---
 .../src/components/vs-select/VsSelect.vue     | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 7ea20a4..5b16def 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -482,6 +482,17 @@ export default defineComponent({
             }, 250); // wait for the animation
         }
 
+        function getOptionIds(value: any): string[] {
+            if (value === undefined || value === null) {
+                return [];
+            }
+
+            const values = multiple.value && Array.isArray(value) ? value : [value];
+            return values
+                .map((v: any) => computedOptions.value.find((option) => objectUtil.isEqual(option.value, v))?.id)
+                .filter((optionId): optionId is string => optionId !== undefined);
+        }
+
         watch(isUsingSelect, () => {
             if (isUsingSelect.value) {
                 activateOverlayCallback();
@@ -516,28 +527,18 @@ export default defineComponent({
                     return;
                 }
 
-                if (newInputValue === undefined || newInputValue === null) {
-                    selectedOptionIds.value = [];
-                    return;
-                }
-
-                const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
-                const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
-
-                selectedOptionIds.value = inputValueArray
-                    .map((v: any) => {
-                        for (const option of computedOptions.value) {
-                            if (objectUtil.isEqual(option.value, v)) {
-                                return option.id;
-                            }
-                        }
-                        return null;
-                    })
-                    .filter((v: any) => v !== null);
+                selectedOptionIds.value = getOptionIds(newInputValue);
             },
             { immediate: true },
         );
 
+        watch(computedOptions, () => {
+            const optionIds = getOptionIds(inputValue.value);
+            if (!objectUtil.isEqual(optionIds, selectedOptionIds.value)) {
+                selectedOptionIds.value = optionIds;
+            }
+        });
+
         watch([computedDisabled, computedReadonly], () => {
             closeOptions();
         });
-- 
2.43.0


From a785d4d93a0fb6a67c183a2f449c91e4be56b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:51:31 +0000
Subject: [PATCH 42/42] fix: show toasts and modals in containers whose
 selectors differ only by a hash

---
 packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts | 2 +-
 packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 568a526..0ac41e8 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -31,7 +31,7 @@ export function createModalPlugin(): ModalPlugin {
                 containerElement.style.position = 'relative';
             }
             // mount ModalView to OverlayWrapper
-            const overlayId = `vs-modal-overlay-${container.replace('#', '')}`;
+            const overlayId = `vs-modal-overlay-${container}`;
             overlayContainerStore.push(overlayId, container, 'VsModalView');
 
             const modalInfo = createModalInfo(content, options);
diff --git a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
index 3382c2d..91bdc5b 100644
--- a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
+++ b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
@@ -23,7 +23,7 @@ export function createToastPlugin(): ToastPlugin {
                 containerElement.style.position = 'relative';
             }
             // mount ToastView to OverlayWrapper
-            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
+            const overlayId = `vs-toast-overlay-${container}`;
             overlayContainerStore.push(overlayId, container, 'VsToastView');
 
             const toastInfo = createToastInfo(content, options);
-- 
2.43.0

