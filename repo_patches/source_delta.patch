From 0bc5ec18a32e9e6554782683fde83dd85640166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 01/17] fix: commit a mark when configure() changes its options

Mark.configure() stored clip, zIndex, interactive, ... without committing
the mark, so that changing them after the first run had no effect.
---
 packages/vgrammar-core/src/view/mark.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 05927c7..6e20995 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -506,6 +506,7 @@ export class Mark extends GrammarBase implements IMark {
           (this.spec as any)[key] = undefined;
         }
       });
+      this.commit();
       return this;
     }
 
@@ -515,6 +516,7 @@ export class Mark extends GrammarBase implements IMark {
       }
     });
 
+    this.commit();
     return this;
   }
 
-- 
2.43.0


From 9dc566bfa2119a00bb237d7a74ef3d225cacc7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 02/17] fix: return the object from chainable methods on early
 exits

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 2 +-
 packages/vgrammar-core/src/graph/canvas-renderer.ts   | 2 +-
 packages/vgrammar-plot/src/semantic-mark.ts           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index dbab67a..4fd8e37 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -60,7 +60,7 @@ export class Animate implements IAnimate {
 
   animate() {
     if (!this.isEnabled || !this.configs || !this.configs.length) {
-      return;
+      return this;
     }
 
     const elements = this.mark.getAllElements();
diff --git a/packages/vgrammar-core/src/graph/canvas-renderer.ts b/packages/vgrammar-core/src/graph/canvas-renderer.ts
index f20450a..2bf17d7 100644
--- a/packages/vgrammar-core/src/graph/canvas-renderer.ts
+++ b/packages/vgrammar-core/src/graph/canvas-renderer.ts
@@ -77,8 +77,8 @@ export default class CanvasRenderer implements IRenderer {
   background(color: IColor) {
     if (this._stage) {
       this._stage.background = color;
-      return this;
     }
+    return this;
   }
 
   setDpr(resolution: number, redraw: boolean) {
diff --git a/packages/vgrammar-plot/src/semantic-mark.ts b/packages/vgrammar-plot/src/semantic-mark.ts
index edb07ac..5a8f04e 100644
--- a/packages/vgrammar-plot/src/semantic-mark.ts
+++ b/packages/vgrammar-plot/src/semantic-mark.ts
@@ -162,7 +162,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
         don't use this keyword`
       );
 
-      return;
+      return this;
     }
 
     if (!this.spec.state) {
-- 
2.43.0


From c476962d9d700dad8ef45964cbdb3279ef626227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 03/17] fix: jitterX, jitterY and markoverlap hand on their
 elements

---
 packages/vgrammar-core/src/transforms/mark/jitter.ts      | 8 ++++++--
 .../vgrammar-core/src/transforms/mark/mark-overlap.ts     | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/jitter.ts b/packages/vgrammar-core/src/transforms/mark/jitter.ts
index d8b485d..f47a06d 100644
--- a/packages/vgrammar-core/src/transforms/mark/jitter.ts
+++ b/packages/vgrammar-core/src/transforms/mark/jitter.ts
@@ -40,7 +40,9 @@ export const jitterY = (options: JitterYTransformOptions, upstreamData: IElement
     return upstreamData;
   }
 
-  return jitterByChannel(options, upstreamData, 'y');
+  jitterByChannel(options, upstreamData, 'y');
+
+  return upstreamData;
 };
 
 /**
@@ -51,7 +53,9 @@ export const jitterX = (options: JitterXTransformOptions, upstreamData: IElement
     return upstreamData;
   }
 
-  return jitterByChannel(options, upstreamData, 'x');
+  jitterByChannel(options, upstreamData, 'x');
+
+  return upstreamData;
 };
 
 /**
diff --git a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
index 98f9400..c0f8d8d 100644
--- a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
+++ b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
@@ -123,7 +123,7 @@ function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRad
  */
 export const transform = (options: MarkOverlapTransformOptions, upstreamData: IElement[]) => {
   if (!upstreamData || upstreamData.length === 0) {
-    return;
+    return upstreamData;
   }
   let { radius } = options;
   if (isNil(radius)) {
-- 
2.43.0


From 7fac851d55a364ff2db819a058f00d97a40c6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 04/17] fix: sort, sampling, sankey and fast word cloud leave
 the upstream data as it is

---
 .../src/transforms/data/sampling.ts           | 21 +++++++++++++++----
 .../vgrammar-core/src/transforms/data/sort.ts |  2 +-
 packages/vgrammar-sankey/src/hierarchy.ts     | 12 ++++-------
 packages/vgrammar-sankey/src/layout.ts        |  7 +++++--
 .../vgrammar-wordcloud/src/fast-layout.ts     |  2 +-
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sampling.ts b/packages/vgrammar-core/src/transforms/data/sampling.ts
index 6cc3c18..f0c54a9 100644
--- a/packages/vgrammar-core/src/transforms/data/sampling.ts
+++ b/packages/vgrammar-core/src/transforms/data/sampling.ts
@@ -86,7 +86,6 @@ function sample(size: number, array: any[], isGroup: boolean, mode: 'min' | 'max
   let frameValues = [];
 
   newIndices.push(sampledIndex);
-  array[sampledIndex][yfield] = array[sampledIndex][yfield];
 
   for (let i = 1; i < len - 1; i += frameSize) {
     if (frameSize > len - i) {
@@ -179,6 +178,14 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
   if (upstreamData.length) {
     // 如果有groupBy，数据分组
     const groups = {};
+    // the aggregated values are written to copies, the upstream data is kept
+    const output = upstreamData.slice();
+    const writeBack = (index: number, record: any) => {
+      if (record[yfield] !== upstreamData[index][yfield]) {
+        output[index] = Object.assign({}, upstreamData[index], { [yfield]: record[yfield] });
+      }
+    };
+
     if (groupBy) {
       for (let i = 0, n = upstreamData.length; i < n; i++) {
         const datum = upstreamData[i];
@@ -204,16 +211,22 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
         } else {
           const indices = sampler(size, group, true, yfield);
           rawIndice = rawIndice.concat(indices);
-          group.forEach((datum: any) => (upstreamData[datum.i][yfield] = datum[yfield]));
+          group.forEach((datum: any) => writeBack(datum.i, datum));
         }
       });
 
       // 采样后，按照原始顺序排序
       rawIndice.sort((a, b) => a - b);
 
-      return rawIndice.map((index: number) => upstreamData[index]);
+      return rawIndice.map((index: number) => output[index]);
     }
-    return sampler(size, upstreamData, false, yfield).map(index => upstreamData[index]);
+    const records = upstreamData.map(datum => ({ [yfield]: datum[yfield] }));
+
+    return sampler(size, records, false, yfield).map(index => {
+      writeBack(index, records[index]);
+
+      return output[index];
+    });
   }
 
   return [];
diff --git a/packages/vgrammar-core/src/transforms/data/sort.ts b/packages/vgrammar-core/src/transforms/data/sort.ts
index effd1a2..cb1d94d 100644
--- a/packages/vgrammar-core/src/transforms/data/sort.ts
+++ b/packages/vgrammar-core/src/transforms/data/sort.ts
@@ -8,7 +8,7 @@ export const transform = (options: SortTransformOptions, upstreamData: any[]) =>
   if (sort && upstreamData) {
     const sortFn = isFunction(sort) ? sort : compare(sort.field, sort.order);
 
-    upstreamData.sort((a: any, b: any) => sortFn(a, b));
+    return upstreamData.slice().sort((a: any, b: any) => sortFn(a, b));
   }
 
   return upstreamData;
diff --git a/packages/vgrammar-sankey/src/hierarchy.ts b/packages/vgrammar-sankey/src/hierarchy.ts
index 7743334..a2da561 100644
--- a/packages/vgrammar-sankey/src/hierarchy.ts
+++ b/packages/vgrammar-sankey/src/hierarchy.ts
@@ -1,18 +1,14 @@
 import { isNil } from '@visactor/vutils';
 import type { HierarchyNodeDatum } from './interface';
 
-export const calculateNodeValue = (subTree: HierarchyNodeDatum[]) => {
+export const calculateNodeValue = (subTree: HierarchyNodeDatum[], values: Map<HierarchyNodeDatum, number>) => {
   let sum = 0;
-  subTree.forEach((node, index) => {
+  subTree.forEach(node => {
     if (isNil(node.value)) {
-      if (node.children?.length) {
-        node.value = calculateNodeValue(node.children);
-      } else {
-        node.value = 0;
-      }
+      values.set(node, node.children?.length ? calculateNodeValue(node.children, values) : 0);
     }
 
-    sum += Math.abs(node.value);
+    sum += Math.abs(values.get(node) ?? node.value);
   });
 
   return sum;
diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 16a1fe4..df3a349 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -249,7 +249,9 @@ export class SankeyLayout {
     const linkMap: Record<string | number, SankeyLinkElement> = {};
     const originalLinks: (SankeyLinkDatum & { parents?: SankeyNodeElement[] })[] = [];
 
-    calculateNodeValue(originalNodes);
+    const nodeValues = new Map<HierarchyNodeDatum, number>();
+
+    calculateNodeValue(originalNodes, nodeValues);
 
     const doSubTree = (subTree: HierarchyNodeDatum[], depth: number, parents?: SankeyNodeElement[]) => {
       subTree.forEach((node, index) => {
@@ -258,7 +260,8 @@ export class SankeyLayout {
           : parents
           ? `${parents[parents.length - 1].key}-${index}`
           : `${depth}-${index}`;
-        const nodeValue = isNil(node.value) ? 0 : toValidNumber(node.value);
+        const value = nodeValues.get(node) ?? node.value;
+        const nodeValue = isNil(value) ? 0 : toValidNumber(value);
 
         if (nodeMap[nodeKey]) {
           nodeMap[nodeKey].value = undefined;
diff --git a/packages/vgrammar-wordcloud/src/fast-layout.ts b/packages/vgrammar-wordcloud/src/fast-layout.ts
index 141f759..54c55e7 100644
--- a/packages/vgrammar-wordcloud/src/fast-layout.ts
+++ b/packages/vgrammar-wordcloud/src/fast-layout.ts
@@ -138,7 +138,7 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
     this.center = [config.width / 2, config.height / 2];
     this.width = config.width;
     this.height = config.height;
-    this.data = data.sort((a: any, b: any) => {
+    this.data = data.slice().sort((a: any, b: any) => {
       return this.getTextFontSize(b) - this.getTextFontSize(a);
     });
 
-- 
2.43.0


From cff3877e2fb57e0111d86d3b15ce0a3ff58f703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 05/17] fix: components set their key on a copy of the joined
 data

---
 packages/vgrammar-core/src/view/component.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/component.ts b/packages/vgrammar-core/src/view/component.ts
index 36b687b..0a0b5d4 100644
--- a/packages/vgrammar-core/src/view/component.ts
+++ b/packages/vgrammar-core/src/view/component.ts
@@ -1,3 +1,4 @@
+import { isArray } from '@visactor/vutils';
 import { DefaultKey } from '../graph/constants';
 import { GrammarMarkType, HOOK_EVENT } from '../graph/enums';
 import type {
@@ -76,9 +77,11 @@ export class Component extends Mark implements IComponent {
     this.spec.key = DefaultKey;
 
     if (data) {
-      (data as any)[DefaultKey] = this._componentDatum[DefaultKey];
+      // the data may be shared with other marks, the key of the component is set on a copy
+      const datum: any = isArray(data) ? data.slice() : Object.assign({}, data);
 
-      this._componentDatum = data;
+      datum[DefaultKey] = this._componentDatum[DefaultKey];
+      this._componentDatum = datum;
     } else {
       this._componentDatum = { [DefaultKey]: this._componentDatum[DefaultKey] };
     }
-- 
2.43.0


From b6352dd2f05e040417bf982480907e1bfa4b2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 06/17] fix: legend sets the symbol type on a copy of the
 theme's item shape

---
 packages/vgrammar-core/src/component/legend.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index bba1122..2710305 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -47,7 +47,7 @@ export const generateDiscreteLegendAttributes = (
           fill: color,
           stroke: color
         }
-      : legendTheme?.items?.[0]?.shape ?? {};
+      : { ...(legendTheme?.items?.[0]?.shape ?? {}) };
 
     if (shapeScale) {
       Object.assign(shape, { symbolType: shapeScale.scale(item) });
-- 
2.43.0


From a86f022ae975eaa887ebd55f17282216d311989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 07/17] fix: the identifier transform hands its data on instead
 of the counter

---
 packages/vgrammar-core/src/transforms/view/identifier.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/view/identifier.ts b/packages/vgrammar-core/src/transforms/view/identifier.ts
index 2efa5bf..14f39d6 100644
--- a/packages/vgrammar-core/src/transforms/view/identifier.ts
+++ b/packages/vgrammar-core/src/transforms/view/identifier.ts
@@ -28,5 +28,5 @@ export const transform = (options: IdentifierTransformOptions, upstreamData: any
   });
   view[COUNTER_NAME] = id;
 
-  return id;
+  return upstreamData;
 };
-- 
2.43.0


From d2574026beb9c8327eee2cefd5d26619458b0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 08/17] fix: detach a reference exactly as often as it is asked
 to

---
 packages/vgrammar-core/src/view/grammar-base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/grammar-base.ts b/packages/vgrammar-core/src/view/grammar-base.ts
index 759ef5e..1c5ca7f 100644
--- a/packages/vgrammar-core/src/view/grammar-base.ts
+++ b/packages/vgrammar-core/src/view/grammar-base.ts
@@ -168,7 +168,7 @@ export abstract class GrammarBase extends EventEmitter implements IGrammarBase {
       .forEach(ref => {
         const refCount = this.references.get(ref) - count;
         if (refCount > 0) {
-          this.references.set(ref, refCount - 1);
+          this.references.set(ref, refCount);
         } else {
           this.references.delete(ref);
           if (ref.targets.includes(this)) {
-- 
2.43.0


From 8787c5bf45cc25d088a0b15d0aa2b25f19bf5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 09/17] fix: register every reference of scale options as a
 dependency

---
 packages/vgrammar-core/src/parse/scale.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 337053a..1f66e06 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -158,6 +158,7 @@ function parseLinearScale(spec: Omit<LinearScaleSpec, 'type'>, view: IView) {
   dependencies = dependencies.concat(parseFunctionType(spec.max, view));
   dependencies = dependencies.concat(parseFunctionType(spec.zero, view));
   dependencies = dependencies.concat(parseFunctionType(spec.roundRange, view));
+  dependencies = dependencies.concat(parseFunctionType(spec.config, view));
   return dependencies;
 }
 
@@ -173,11 +174,13 @@ function parseSymlogScale(spec: SymlogScaleSpec, view: IView) {
 
 function parseLogScale(spec: Omit<LogScaleSpec, 'type'>, view: IView) {
   let dependencies: IGrammarBase[] = [];
+  dependencies = dependencies.concat(parseFunctionType(spec.base, view));
   dependencies = dependencies.concat(parseFunctionType(spec.nice, view));
   dependencies = dependencies.concat(parseFunctionType(spec.min, view));
   dependencies = dependencies.concat(parseFunctionType(spec.max, view));
   dependencies = dependencies.concat(parseFunctionType(spec.zero, view));
   dependencies = dependencies.concat(parseFunctionType(spec.roundRange, view));
+  dependencies = dependencies.concat(parseFunctionType(spec.config, view));
   return dependencies;
 }
 
@@ -234,7 +237,9 @@ export function parseScaleConfig(type: GrammarScaleType, config: ScaleConfigureS
   if (isNil(config)) {
     return [];
   }
-  const deps: IGrammarBase[] = parseFunctionType(config.unknown, view);
+  const deps: IGrammarBase[] = parseFunctionType(config.unknown, view).concat(
+    parseFunctionType((config as ContinuousScaleSpec).tickCount, view)
+  );
   switch (type) {
     case 'linear':
     case 'sqrt':
-- 
2.43.0


From 15b1a0eb7ce813450f38c30d5e9b5275572de1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 10/17] fix: reconfiguring a scale releases the references of
 the options it replaces

---
 packages/vgrammar-core/src/view/scale.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 0e4a53e..6dae175 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -172,17 +172,29 @@ export class Scale extends GrammarBase implements IScale {
   }
 
   configure(config: ScaleConfigureSpec | Nil) {
-    this.detach(parseScaleConfig(this.spec.type, config, this.view));
+    this.detach(this._getSpecReferences());
     if (isNil(config)) {
-      this.spec = { type: this.spec.type, domain: this.spec.domain, range: this.spec.range } as ScaleSpec;
+      this.spec = {
+        type: this.spec.type,
+        domain: this.spec.domain,
+        range: this.spec.range,
+        dependency: this.spec.dependency
+      } as ScaleSpec;
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseScaleConfig(this.spec.type, config, this.view));
     }
+    this.attach(this._getSpecReferences());
     this.commit();
     return this;
   }
 
+  private _getSpecReferences() {
+    return parseScaleDomainRange(this.spec.domain, this.view).concat(
+      parseScaleDomainRange(this.spec.range, this.view),
+      parseScaleConfig(this.spec.type, this.spec, this.view)
+    );
+  }
+
   reuse(grammar: IGrammarBase) {
     if (grammar.grammarType !== this.grammarType) {
       return this;
-- 
2.43.0


From 7f0c56fc3c90932ca7a9ed1d8b8c1e941d6130bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 11/17] fix: register the references inside array options of
 transforms

---
 packages/vgrammar-core/src/parse/transform.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/transform.ts b/packages/vgrammar-core/src/parse/transform.ts
index d5e8c36..cb4de35 100644
--- a/packages/vgrammar-core/src/parse/transform.ts
+++ b/packages/vgrammar-core/src/parse/transform.ts
@@ -68,11 +68,7 @@ const parseTransformOption = (key: string, transformSpecValue: TransformSpecValu
 
     return {
       references: values.reduce((res: any[], val: any) => {
-        if (val.references) {
-          res.concat(val.references);
-        }
-
-        return res;
+        return val.references ? res.concat(val.references) : res;
       }, []),
       value: values.map((entry: any) => entry.value)
     };
-- 
2.43.0


From 84764ff90bc9b6726c33a655c6fe1e48c1342607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 12/17] fix: setting the coordinate or a function encoder of a
 mark releases the replaced one

---
 packages/vgrammar-core/src/view/mark.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 6e20995..30ed8f3 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -354,6 +354,7 @@ export class Mark extends GrammarBase implements IMark {
   }
 
   coordinate(coordinate: ICoordinate | string | Nil) {
+    this.detach(this.coord);
     if (isString(coordinate)) {
       this.coord = this.view.getCoordinateById(coordinate);
     } else {
@@ -389,9 +390,10 @@ export class Mark extends GrammarBase implements IMark {
       // detach last dependencies
       if (isFunctionType(lastEncoder)) {
         this.detach(parseEncodeType(lastEncoder, this.view));
+        (this.spec.encode as any)[state] = {};
       } else {
         const isSingleChannel = isString(channel);
-        const clearAll = (isSingleChannel && clear) || (!isSingleChannel && value);
+        const clearAll = (isSingleChannel && clear) || (!isSingleChannel && (value || isFunctionType(channel)));
 
         if (clearAll) {
           Object.keys(lastEncoder).forEach(c => {
-- 
2.43.0


From 4707b2f9c2624d057f2e2355ea0b59a00f343281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 13/17] fix: clearing the options of a projection keeps the
 references of those it retains

---
 packages/vgrammar-projection/src/projection.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-projection/src/projection.ts b/packages/vgrammar-projection/src/projection.ts
index d54b9e4..44819a5 100644
--- a/packages/vgrammar-projection/src/projection.ts
+++ b/packages/vgrammar-projection/src/projection.ts
@@ -146,12 +146,13 @@ export class Projection extends GrammarBase implements IProjection {
         fit: this.spec.fit,
         extent: this.spec.extent,
         size: this.spec.size,
-        pointRadius: this.spec.pointRadius
+        pointRadius: this.spec.pointRadius,
+        dependency: this.spec.dependency
       };
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseProjection(this.spec, this.view));
     }
+    this.attach(parseProjection(this.spec, this.view));
     this.commit();
     return this;
   }
-- 
2.43.0


From e24615cb7721f55dfaadfaf55c779e9c2cbf00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 14/17] fix: register all references of data format, values and
 url

---
 packages/vgrammar-core/src/view/data.ts | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/packages/vgrammar-core/src/view/data.ts b/packages/vgrammar-core/src/view/data.ts
index c977849..6caf820 100644
--- a/packages/vgrammar-core/src/view/data.ts
+++ b/packages/vgrammar-core/src/view/data.ts
@@ -64,17 +64,12 @@ export class Data extends GrammarBase implements IData {
     const refs: IGrammarBase[] = [];
     const transforms: IGrammarTask[] = [];
 
-    const formatRef = spec.format ? parseFunctionType(spec.format, this.view)[0] : null;
-    if (formatRef) {
-      refs.push(formatRef);
-    }
+    const formatRefs = parseFunctionType(spec.format, this.view);
+    const formatRef = formatRefs[0];
+    refs.push(...formatRefs);
 
     if (spec.values) {
-      const valuesRef = parseFunctionType(spec.values, this.view)[0];
-
-      if (valuesRef) {
-        refs.push(valuesRef);
-      }
+      refs.push(...parseFunctionType(spec.values, this.view));
 
       transforms.push({
         type: 'ingest',
@@ -86,10 +81,9 @@ export class Data extends GrammarBase implements IData {
         }
       });
     } else if (spec.url) {
-      const urlRef = parseFunctionType(spec.url, this.view)[0];
-      if (urlRef) {
-        refs.push(urlRef);
-      }
+      const urlRefs = parseFunctionType(spec.url, this.view);
+      const urlRef = urlRefs[0];
+      refs.push(...urlRefs);
 
       transforms.push({
         type: 'load',
-- 
2.43.0


From 8e7d2fc5ed744e0acc0737a53fab4dd0c2284707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 15/17] fix: collect the references of tickCount, inside and
 baseValue when a grid is created from a spec

---
 packages/vgrammar-core/src/component/grid.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index f35cf9a..d347d6c 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -86,6 +86,9 @@ export class Grid extends ScaleComponent implements IGrid {
     this.target(spec.target);
     this.gridType(spec.gridType);
     this.gridShape(spec.gridShape);
+    this.setFunctionSpec(spec.tickCount, 'tickCount');
+    this.inside(spec.inside);
+    this.baseValue(spec.baseValue);
     return this;
   }
 
-- 
2.43.0


From f3e2eb12007c02a8878ad99b62038ce1b76f6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 16/17] fix: announce the end of a scale evaluation

---
 packages/vgrammar-core/src/view/scale.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 6dae175..d5af2d3 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -69,7 +69,7 @@ export class Scale extends GrammarBase implements IScale {
       }
     }
 
-    this.view.emit(HOOK_EVENT.BEFORE_EVALUATE_SCALE);
+    this.view.emit(HOOK_EVENT.AFTER_EVALUATE_SCALE);
     return this;
   }
 
-- 
2.43.0


From 128c04ecc02add4ef85fdb99380ea11a18eaa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 17/17] fix: announce the end of an immediate draw once

---
 packages/vgrammar-core/src/graph/canvas-renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/canvas-renderer.ts b/packages/vgrammar-core/src/graph/canvas-renderer.ts
index 2bf17d7..316855d 100644
--- a/packages/vgrammar-core/src/graph/canvas-renderer.ts
+++ b/packages/vgrammar-core/src/graph/canvas-renderer.ts
@@ -138,8 +138,6 @@ export default class CanvasRenderer implements IRenderer {
     // render immediately and skip render in next frame
     if (immediately) {
       this._stage.render();
-
-      this._view.emit(HOOK_EVENT.AFTER_VRENDER_DRAW);
     }
     return this;
   }
-- 
2.43.0

