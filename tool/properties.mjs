// Source of /verif/properties.jsonl and /verif/MANIFEST.json: node tool/properties.mjs
import fs from 'node:fs';
import path from 'node:path';
const ROOT = path.resolve(path.dirname(new URL(import.meta.url).pathname), '..');
const core = p => 'packages/vgrammar-core/src/' + p;
const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, extra = {}) =>
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why,
    anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra } });

add('C01', 'A reference used by a spec option is registered as a dependency',
  'Every scale, coordinate, projection, data, signal, mark, component, transform or encoding option that the runtime resolves against other grammars at evaluation time (a {signal} reference, a callback with dependencies, a {data}/{scale} reference by id or as a grammar object) is also resolved to those grammars when the option is configured, by its own method or as part of a whole specification, and the grammars found are attached as dependencies of the configured grammar and stay so as long as the option does. Consequently changing the referenced grammar re-evaluates the grammar whose option refers to it, whichever option carries the reference.',
  ['programs', 'inputs'], 'every spec, every option of every grammar kind, and every position (scalar or inside an array) at which a reference may be written',
  'Tests sample a handful of options (domain, range, start); the option x grammar kind x reference form product is never enumerated, and a missed registration only shows as a stale chart after a later signal change.',
  [core('parse/scale.ts'), core('view/scale.ts'), core('view/coordinate.ts'), core('parse/coordinate.ts'), core('parse/transform.ts'), core('parse/option.ts'), core('view/signal.ts'), core('view/data.ts'), core('view/mark.ts'), 'packages/vgrammar-projection/src/projection.ts'],
  [['parseScaleConfig / parseScaleDomainRange mirror configureScale', core('parse/scale.ts')], ['GrammarBase.setFunctionSpec', core('view/grammar-base.ts')], ['parseTransformSpec', core('parse/transform.ts')], ['parseProjection mirrors Projection.evaluate', 'packages/vgrammar-projection/src/projection.ts']],
  { observe_at: ['grammar.references', 'reference.targets'] });

add('C02', 'Replacing an option releases the dependency of the value it replaces',
  'Attaching a dependency and detaching it the same number of times leaves the grammar exactly as before: the reference count goes up by the attached amount and down by the detached amount, and only a count that reaches zero drops the link. Every configuration call that replaces or clears an option which may carry references detaches the references of the old value, and attaches those of the new value, so no stale dependency remains and no live one is lost.',
  ['histories'], 'every sequence of configuration calls on every grammar, including repeated, clearing and re-parsing calls',
  'Tests configure each option once; leaks and lost links need a sequence of at least two configurations of the same option, or two options sharing one reference.',
  [core('view/grammar-base.ts'), core('view/scale.ts'), core('view/data.ts'), core('view/mark.ts'), core('view/component.ts'), core('view/group.ts'), core('component/'), 'packages/vgrammar-projection/src/projection.ts'],
  [['GrammarBase.attach / detach / detachAll', core('view/grammar-base.ts')], ['GrammarBase.setFunctionSpec', core('view/grammar-base.ts')]],
  { observe_at: ['grammar.references', 'reference.targets'] });

add('C03', 'Every configuration call that changes a grammar schedules its re-evaluation',
  'When a public configuration method of a grammar (signal, data, scale, coordinate, projection, mark, glyph, group, component and their subclasses) stores a new option value, the grammar is committed before the method returns, on every path on which the value was stored. Therefore the next run of the view re-evaluates the grammar and the new option takes effect. (Options read outside evaluation, such as animation, morph and user context, need no commit.)',
  ['histories', 'programs'], 'every public configuration method of every grammar class, every branch through it',
  'Tests call few of the ~150 configuration methods and always before the first run, where everything is evaluated anyway; a missing commit only shows on an update after the first run.',
  [core('view/'), core('component/'), core('semantic-marks/'), 'packages/vgrammar-projection/src/projection.ts'],
  [['GrammarBase.commit', core('view/grammar-base.ts')], ['GrammarBase.setFunctionSpec', core('view/grammar-base.ts')]],
  { observe_at: ['view.commit calls'] });

add('C04', 'A dataflow run evaluates everything committed, and forgets what is removed',
  'Each run of the dataflow takes over every grammar committed so far, replacing the commit set by an empty one before the first grammar is evaluated and never afterwards, so that commits made during the run are kept for the next one; every grammar it takes from the queue is evaluated or put back; after evaluating a grammar it queues all of its dependents once the first render is done; and it ends only when the queue is empty, with the first render marked as done. Every grammar a view creates or adds is recorded and committed, a commit always enters the commit set (also of a grammar that was removed before), and a grammar that is removed leaves the commit set, the queue and the grammar list.',
  ['histories', 'schedules'], 'every interleaving of commits, removals and runs',
  'Tests exercise single runs over small graphs; losing a commit needs a commit or removal at a particular point of a run.',
  [core('view/dataflow.ts'), core('util/unique-list.ts'), core('view/View.ts')],
  [['Dataflow.evaluate / _beforeEvaluate / _enqueueTargets', core('view/dataflow.ts')], ['Dataflow.add / commit / remove', core('view/dataflow.ts')], ['View.signal / data / scale / coordinate / mark / customized / addGrammar / removeGrammar / commit', core('view/View.ts')]],
  { observe_at: ['Dataflow._committed', 'Dataflow._heap'] });

add('C05', 'Listeners on long-lived objects are removed with the same event and handler',
  'Every event listener that a view, interaction or event spec registers on something that outlives it (window, the global environment, the renderer stage, or the view for interactions and overlays) is removed by the matching release, unbind or unsubscribe operation, with the same event type and the identical handler. In particular each event an interaction subscribes to while bound is unsubscribed when it is unbound.',
  ['histories', 'configurations'], 'every option combination of every interaction and view, every bind/unbind and create/release history',
  'Tests hardly release views and never count listeners; a leak shows only after release, as work done on behalf of a dead view.',
  [core('view/View.ts'), core('view/view-event-mixin.ts'), core('interactions/'), core('graph/canvas-renderer.ts')],
  [['BaseInteraction.bind/unbind', core('interactions/base.ts')], ['View.release', core('view/View.ts')]],
  { observe_at: ['EventEmitter listener tables', 'window/vglobal listeners'] });

add('C06', 'Deferred work is cancelled when its owner is torn down',
  'Every timer, animation frame or resize observer that a view, interaction, animator or animation manager schedules for later keeps a handle, and the teardown operation of the same object (release, unbind or clear) cancels it through that handle. Nothing scheduled earlier touches the owner after teardown.',
  ['schedules', 'histories'], 'every moment at which teardown can happen relative to a pending callback',
  'Needs a teardown between scheduling and firing of a callback; tests always let timers run out.',
  [core('view/View.ts'), core('interactions/element-select.ts'), core('graph/animation/animator.ts'), core('view/animate.ts')],
  [['View.clearProgressive / _unBindResizeEvent', core('view/View.ts')], ['ElementSelect._timer', core('interactions/element-select.ts')]]);

add('C07', 'Resetting an interaction removes every state it applied',
  'Every element state that a built-in interaction adds when it starts (active, selected, highlight, blur and their configured replacements) is removed again by the reset of that interaction, from the same set of elements it was added to. No configured state survives the reset.',
  ['histories', 'configurations'], 'every interaction, every configuration of its state names, every start/reset sequence',
  'Tests do not drive interactions at all (no pointer events in the unit tests).',
  [core('interactions/'), 'packages/vgrammar-sankey/src/sankey-highlight.ts'],
  [['ToggleStateMixin', core('interactions/toggle-state-mixin.ts')], ['clearPrevElements of each interaction', core('interactions/')]],
  { observe_at: ['element.states'] });

add('C08', 'Interactions subscribe and unsubscribe the same stable handlers',
  'Asking an interaction for the events it listens to is repeatable: it has no effect on data filters, marks, scales or the view, and yields the same handler identities every time it is asked. An interaction can therefore be bound and unbound any number of times, and leaves nothing subscribed or installed after unbinding.',
  ['histories'], 'every interaction, every bind/unbind sequence',
  'Requires unbind or a second bind; tests never unbind.',
  [core('interactions/')],
  [['getEvents of each interaction', core('interactions/')], ['Filter._filterData', core('interactions/filter.ts')]]);

add('C09', 'Unbinding an interaction undoes what it installed on the chart',
  'Whatever an interaction installs on shared chart objects while bound (overlay graphics such as crosshair, tooltip, brush and player overlays put into the scene, fish-eye distortion or range factors set on scales, data filters added to data) is removed by its unbind. After unbinding the chart renders as if the interaction had never been there.',
  ['histories'], 'every interaction with an overlay or a side effect, every point in its activity at which it is unbound',
  'Requires unbinding in the middle of an activity; tests never unbind.',
  [core('interactions/')],
  [['unbind overrides', core('interactions/')]]);

add('C10', 'The full bundle and the plot API register every feature they offer',
  'Every built-in feature that has a registration function (marks, graphics, components, scales, coordinates, projections, data and layout transforms, interactions, animations, environment) is registered by importing the full bundle, except the documented opt-in ones. Every interaction, component, transform, glyph and mark type that the semantic plot marks emit in the specs they generate is registered in that bundle as well.',
  ['programs', 'configurations'], 'every registration function exported by any package and every type name emitted by a semantic mark',
  'Unit tests import modules piecemeal; a feature missing from the bundle is silently ignored at run time (unknown types are skipped).',
  ['packages/vgrammar/src/index.ts', 'packages/vgrammar-full/src/index.ts', core('interactions/index.ts'), core('transforms/index.ts'), 'packages/vgrammar-plot/src/plot-all.ts', 'packages/vgrammar-plot/src/plot.ts'],
  [['View.useRegisters([...])', 'packages/vgrammar-full/src/index.ts'], ['Plot.useMarks([...])', 'packages/vgrammar-plot/src/plot-all.ts']]);

add('C11', 'Each registry key selects the implementation that carries that name',
  'A component, mark, interaction, animation or transform is registered under the type name its own implementation declares, no two implementations are registered under the same name, and registering any of them also applies the shared behaviour it is built on. A feature looked up by its documented type name therefore always yields its own implementation, complete.',
  ['configurations'], 'every registration call of every package',
  'Tests create few components and interactions by name, and never all of them through the registry.',
  [core('core/factory.ts'), core('interactions/index.ts'), core('transforms/index.ts'), core('component/'), core('graph/animation/animation/index.ts')],
  [['Factory.registerX(type, impl)', core('core/factory.ts')]]);

add('C12', 'Lifecycle hooks come in matched pairs, and every published hook fires',
  'Whenever the view, a grammar, an element or the renderer announces the beginning of a phase (parsing, data and scale evaluation, transforming, joining, states, encoding, updating, layout, resizing, rendering, drawing, creating or adding graphics), it announces the end of the same phase exactly once afterwards, on the same emitter and after the work of the phase, on every path on which the phase completes normally, and never the end without the beginning. Every hook name the library publishes is emitted by some phase.',
  ['inputs', 'configurations'], 'every path through every phase, early exits included',
  'Tests check no hooks; a missed end event appears only on particular paths (empty data, early return).',
  [core('graph/enums.ts'), core('view/View.ts'), core('view/mark.ts'), core('view/scale.ts'), core('view/data.ts'), core('view/grammar-base.ts'), core('graph/canvas-renderer.ts')],
  [['HOOK_EVENT and its emit sites', core('graph/enums.ts')]],
  { observe_at: ['view.on(hook)'] });

add('C13', 'Data transforms never modify the data they are given',
  'A registered data or mark transform or layout treats its upstream value, the array it receives and every record reachable from it, as read-only: it does not sort, splice, push to, reverse, truncate or assign into the array and does not add, change or delete fields of its records, so user data and values shared with other consumers stay as they are. The only exceptions are the output fields that map, join, identifier, geoPath and the two word clouds write into the records under the names given by their options.',
  ['inputs', 'histories'], 'every input array and every option combination of every registered transform',
  'Tests look at the returned value; corruption shows in the input array or in a sibling consumer evaluated later.',
  [core('transforms/'), 'packages/vgrammar-hierarchy/src/', 'packages/vgrammar-sankey/src/', 'packages/vgrammar-venn/src/', 'packages/vgrammar-wordcloud/src/', 'packages/vgrammar-wordcloud-shape/src/', 'packages/vgrammar-projection/src/'],
  [['transform functions registered with Factory.registerTransform', core('transforms/index.ts')]]);

add('C14', 'Shared defaults are never modified at run time',
  'Default option tables, default themes, palettes and other constant objects and arrays shared by all charts (module-level or static) are only read after their own module has been loaded, at run time and by the initialisation of other modules: merging or assigning user options over defaults always builds a new object, and no default, at any depth, is stored into, merged into, sorted or extended. Creating, configuring or running one chart can therefore never change the defaults another chart sees.',
  ['histories', 'programs'], 'every code path that touches a module-level or static constant object',
  'Needs two charts in one process with different options; tests build each object in isolation.',
  [core('interactions/'), core('theme/'), core('component/'), core('glyph/'), 'packages/vgrammar-hierarchy/src/', 'packages/vgrammar-wordcloud/src/', 'packages/vgrammar-sankey/src/'],
  [['Object.assign({}, defaults, options) / merge({}, ...)', core('interactions/')]]);

add('C15', 'Layout results depend only on data and options',
  'The data transforms, layouts, projections, scale and coordinate computations, word clouds, element diff and utility functions draw on no clock, no global random source and no state carried over from earlier computations (module-level or static variables and caches, stateful closures or regular expressions created at module load), and a transform does not modify the options, signal parameters or view it is given: with the same data and options they compute the same result every time. The only exceptions are the random options of word clouds and jitter (options and colours named random...), the time budget of progressive layouts (progressiveTime) and the running number that the identifier transform keeps on its view.',
  ['inputs', 'histories'], 'every call of every transform and layout, in any order, any number of times',
  'A single call always looks deterministic; only repetition under another history or time reveals a hidden source.',
  [core('transforms/'), 'packages/vgrammar-hierarchy/src/', 'packages/vgrammar-sankey/src/', 'packages/vgrammar-venn/src/', 'packages/vgrammar-wordcloud/src/', 'packages/vgrammar-wordcloud-shape/src/', 'packages/vgrammar-coordinate/src/', 'packages/vgrammar-util/src/'],
  [['randomLCG', 'packages/vgrammar-hierarchy/src/lcg.ts'], ['fakeRandom', 'packages/vgrammar-wordcloud-shape/src/util.ts']]);

add('C16', 'No state is shared between views',
  'Running, configuring or releasing one view writes no module-level or static variable or container (unique-id counters excepted), assigns to no global object of the process, and changes no process-wide registry or service: the run-time feature registries are written only by the exported registration functions. A new view may set the logger and environment it is given as an option. All transforms of the library are registered as built-in, so releasing a view never unregisters them.',
  ['histories', 'schedules'], 'every interleaving of operations on several views in one process',
  'Tests create one view at a time.',
  [core('view/View.ts'), core('core/factory.ts'), core('theme/theme-manager.ts'), 'packages/vgrammar-plot/src/'],
  [['Factory static registries', core('core/factory.ts')], ['View.release', core('view/View.ts')]]);

add('C17', 'Importing a library package has no side effects',
  'Loading any module of the packages published as side-effect free (all packages except the batteries-included bundles vgrammar and vgrammar-full) only defines things: it registers no feature in a shared registry, patches no class or prototype, stores nothing into an object or class of another module or package, touches no DOM or global object, adds no listener and starts no timer, and no module is imported only for its effects. Features appear only when their registration function is called. The only exceptions are the all-in-one plot entry (plot-all), which registers the plot marks, and the animator selecting the animation mode of VRender.',
  ['programs'], 'every module of every published package, in any import order',
  'Tests import everything; the effect of tree shaking (registrations silently dropped) appears only in a consumer bundle.',
  ['packages/*/package.json', core('index.ts')],
  [['"sideEffects": false', 'packages/vgrammar-core/package.json'], ['register* functions', core('interactions/index.ts')]]);

add('C18', 'Fluent configuration methods return their object on every path',
  'A configuration method of a view, grammar, component, mark, coordinate, animation, interaction, plot or semantic mark that returns its own object for chaining on some path returns it on every normal path, including early exits for invalid or missing input. (Evaluation methods, whose result nobody chains on, are not covered.)',
  ['inputs', 'programs'], 'every path through every chainable method of views, grammars, interactions, plots and semantic marks',
  'Tests chain on the happy path only; early-exit branches (invalid state, missing feature) are not exercised.',
  [core('view/'), core('component/'), 'packages/vgrammar-plot/src/semantic-mark.ts', core('graph/'), 'packages/vgrammar-coordinate/src/'],
  [['return this', core('view/')]]);

add('C19', 'Every transform delivers its data on every path',
  'Every registered data or mark transform returns its result (an array or object of data, its input, or a progressive handle; never a number or string) on every normal path through it and through the functions whose results it returns, including empty input and missing options. No path falls off the end or returns undefined or null, so the next step of the pipeline always receives data.',
  ['inputs'], 'every path through every registered transform function',
  'Tests cover the main path of each transform; early exits for empty or missing input are mostly not exercised.',
  [core('transforms/'), 'packages/vgrammar-hierarchy/src/', 'packages/vgrammar-sankey/src/', 'packages/vgrammar-venn/src/', 'packages/vgrammar-wordcloud/src/', 'packages/vgrammar-wordcloud-shape/src/', 'packages/vgrammar-projection/src/'],
  [['GrammarBase.evaluateTransform', core('view/grammar-base.ts')]]);

add('C20', 'Packages respect their layering and never evaluate strings as code',
  'At run time each package imports only files of its own source folder and packages it declares as dependencies, sibling packages are imported only through their public entry point, and the graph of package imports is acyclic: core, coordinate and util never import a layout, plot or bundle package. No library code evaluates strings as code (eval, Function, string timers, script elements) or injects raw HTML.',
  ['programs'], 'every import and every call in every published package',
  'The monorepo hoists everything, so an undeclared import works in every test and fails only for a consumer.',
  ['packages/*/package.json', 'packages/*/src'],
  [['dependencies', 'packages/vgrammar-core/package.json']]);

add('C21', 'Releasing an object releases everything it owns',
  'Every release or clear operation that a class overrides still performs the one it inherits, and the objects an owner creates and holds (recorded and cached grammars, dataflow, renderer with its stage and layers, animation manager, elements, graphic items, sub-animators) are released with it. After releasing a view no owned object keeps running or keeps the view reachable through listeners.',
  ['histories'], 'every class with a teardown method, every path through it',
  'Tests rarely release and never inspect what is left.',
  [core('view/'), core('graph/'), core('component/')],
  [['release / clear / prepareRelease', core('view/View.ts')]]);

add('C22', 'Declarative specs and the fluent API reach the same options',
  'Every option declared in the spec type of a grammar or component is honoured when the grammar is created from a spec: parsing the spec applies each declared option, just as calling the corresponding configuration method would. An option accepted by the types is never silently ignored.',
  ['programs', 'inputs'], 'every declared property of every spec type',
  'Tests use a few options per grammar; an option dropped from parsing compiles and is silently ignored.',
  [core('types/'), core('view/'), core('component/'), core('semantic-marks/'), 'packages/vgrammar-projection/src/projection.ts', 'packages/vgrammar-plot/src/semantic-mark.ts'],
  [['parse(spec) of each grammar', core('view/')]]);

add('C23', 'Every declared type name has an implementation',
  'Each scale type, coordinate type, mark type, component type, transform, interaction and animation type name that the public types declare has an implementation that is selected for it: dispatch tables and switches handle every declared variant, and no variant falls through to a default meant for another one.',
  ['inputs', 'configurations'], 'every member of every public type-name union and enumeration, at every dispatch site',
  'Tests use the common variants only; a variant without a case silently falls back.',
  [core('parse/scale.ts'), core('parse/coordinate.ts'), core('graph/enums.ts'), core('types/'), core('graph/mark/graphic.ts'), core('graph/attributes/transform.ts')],
  [['createScale / configureScale', core('parse/scale.ts')], ['Factory registries', core('core/factory.ts')]]);


add('C24', 'A view run performs its phases in order',
  'Each run of a view first settles the size of the renderer and reconciles the grammars of a replaced specification (reuses them, detaches the reused and then the remaining ones), then evaluates the dataflow, then - when layout is pending - builds the layout tree, lays out, evaluates what the layout committed and announces the end of layout, adapts the size of the renderer again, and then morphs, releases the replaced grammars and finally renders, exactly once. No phase precedes the one it depends on; every run that evaluates also renders; and a run ends without evaluating only when nothing is committed, nothing was replaced, no layout is pending and the size has not changed.',
  ['histories', 'configurations'], 'every path through a view run, for every combination of update, layout, resize and reuse state',
  'A reordering yields a correct first frame for simple specs; it shows only with layout-dependent scales, spec updates or resizes between runs.',
  [core('view/View.ts')],
  [['View.evaluate / doRender', core('view/View.ts')], ['View.reuseCachedGrammars / detachCachedGrammar / releaseCachedGrammars', core('view/View.ts')]]);

add('C25', 'Specialised marks honour every argument of the base configuration call',
  'Marks, components and interactions that specialise a configuration or query method of their base class accept and act on every argument the base method accepts. Code written against the base interface therefore behaves the same for every specialised mark.',
  ['programs', 'inputs'], 'every overriding method of every class and every argument of the overridden method',
  'Tests call overrides with the first arguments only.',
  [core('view/'), core('component/'), core('semantic-marks/'), core('graph/')],
  [['Mark.encodeState(state, channel, value, clear)', core('view/mark.ts')]]);

add('C26', 'Using an unregistered feature is reported, never a crash',
  'When a spec or API call names a grammar, mark, component, interaction, transform, glyph, animation or graphic that has not been registered, the lookup yields nothing and every caller checks this before using the result. The feature is skipped and the rest of the chart still works.',
  ['inputs', 'configurations'], 'every lookup of a registered feature and every use of its result',
  'Tests register everything they use.',
  [core('core/factory.ts'), core('view/'), core('graph/')],
  [['Factory.createX / getX and their callers', core('core/factory.ts')]]);

const na = (id, title, statement, over, text, why, files, mech) => add(id, title, statement, over, text, why, files, mech);
na('N01', 'A re-run after an update equals a fresh evaluation of the final state',
  'After any sequence of updates and runs, the elements, states and graphic attributes of a view equal those of a new view built directly from the final specification.',
  ['histories'], 'every update history', 'Tests check single updates.', [core('view/'), core('graph/mark/differ.ts')], [['dataflow + differ', core('view/dataflow.ts')]]);
na('N02', 'Every grammar is evaluated after all grammars it depends on',
  'In each dataflow run a grammar is evaluated only after every committed grammar it transitively depends on has been evaluated, for any order of creation and configuration.',
  ['histories', 'programs'], 'every dependency graph and commit order', 'Tests use chains of two or three grammars.', [core('view/dataflow.ts'), core('util/grammar-heap.ts')], [['rank heap', core('util/grammar-heap.ts')]]);
na('N03', 'The element diff partitions data exactly',
  'Joining data with elements by key yields each datum in exactly one of enter and update, and each stale element in exit, with keys matched exactly and order preserved.',
  ['inputs', 'histories'], 'all previous and next data arrays and key functions', 'Tests sample a few arrays.', [core('graph/mark/differ.ts')], [['Differ', core('graph/mark/differ.ts')]]);
na('N04', 'Hierarchy layouts tile or nest exactly',
  'Treemap, sunburst, circle packing and tree layouts give each node a region inside its parent, siblings do not overlap, and sizes are proportional to values.',
  ['inputs'], 'all trees and options', 'Tests check snapshots.', ['packages/vgrammar-hierarchy/src/'], [['layout algorithms', 'packages/vgrammar-hierarchy/src/']]);
na('N05', 'Sankey and Venn layouts conserve quantities',
  'Sankey link thickness sums to node size on both sides and Venn areas match set sizes.',
  ['inputs'], 'all graphs and set systems', 'Tests check snapshots.', ['packages/vgrammar-sankey/src/', 'packages/vgrammar-venn/src/'], [['layout algorithms', 'packages/vgrammar-sankey/src/layout.ts']]);
na('N06', 'Word cloud words never overlap and stay inside the shape',
  'No two placed words overlap and every placed word lies inside the requested shape.',
  ['inputs'], 'all word lists, fonts and shapes', 'Tests check a few lists with a mocked canvas.', ['packages/vgrammar-wordcloud/src/', 'packages/vgrammar-wordcloud-shape/src/'], [['placement', 'packages/vgrammar-wordcloud/src/cloud-layout.ts']]);
na('N07', 'Coordinate conversion and inversion are inverse',
  'convert and invert of every coordinate system are mutually inverse within its domain, for every rotation, translation, scaling and transposition.',
  ['inputs'], 'all points and transforms', 'Tests sample points.', ['packages/vgrammar-coordinate/src/'], [['convert/invert', 'packages/vgrammar-coordinate/src/']]);
na('N08', 'Statistical transforms compute their defining formulas',
  'bin, stack, pie, kde, contour, sampling, dodge and jitter satisfy their numeric definitions (sums, ranges, partitions).',
  ['inputs'], 'all numeric inputs', 'Tests sample inputs.', [core('transforms/')], [['transforms', core('transforms/')]]);
na('N09', 'Animations run for their configured time and end on the final attributes',
  'Every animation starts after its delay, lasts its duration, and leaves the graphic on its final attributes whatever interrupts it.',
  ['schedules', 'histories'], 'all timelines and interruptions', 'Tests use fake tickers for few cases.', [core('graph/animation/')], [['animator', core('graph/animation/animator.ts')]]);
na('N10', 'Progressive rendering ends with the same picture as synchronous rendering',
  'The result of progressive evaluation, for any step size and interruption, equals that of evaluating at once.',
  ['schedules', 'inputs'], 'all step sizes and interruptions', 'Tests use one step size.', [core('view/mark.ts')], [['evaluateProgressive', core('view/mark.ts')]]);
na('N11', 'Automatic layout places components without overlap and fills the view',
  'Relative and grid layouts give marks disjoint boxes that together fit the view box.',
  ['inputs'], 'all component sizes and positions', 'Tests sample specs.', [core('graph/layout/')], [['layout', core('graph/layout/relative.ts')]]);
na('N12', 'Scale output matches the declared domain and range for all data',
  'A configured scale maps the data extent onto the configured range, respecting zero, nice, min and max.',
  ['inputs'], 'all data and options', 'Tests sample options.', [core('parse/scale.ts')], [['configureScale', core('parse/scale.ts')]]);
const TECH = JSON.parse(fs.readFileSync(ROOT + '/tool/claims.json', 'utf8'));
const claimed = P.filter(p => p.id[0] === 'C' && fs.existsSync(ROOT + '/tool/checks/' + p.id.toLowerCase() + '.js') && TECH.checks[p.id]);
const napp = P.filter(p => TECH.not_applicable[p.id]);
const listed = [...claimed, ...napp];
for (const p of listed) if (p.title.length > 80) throw new Error('title too long ' + p.id + ' ' + p.title.length);
fs.writeFileSync(ROOT + '/properties.jsonl', listed.map(p => JSON.stringify(p) + '\n').join(''));
const manifest = {
  version: 1,
  setup_cmd: 'node tool/setup.js',
  checks: claimed.map(p => ({
    property: p.id, quick_cmd: 'node tool/run.js ' + p.id, thorough_cmd: 'VERIF_TIER=thorough node tool/run.js ' + p.id,
    evidence_file: 'evidence/' + p.id + '.json', technique: TECH.checks[p.id].technique, level: 'other', level_note: TECH.checks[p.id].note
  })),
  not_applicable: napp.map(p => ({ property: p.id, reason: TECH.not_applicable[p.id] })),
  notes: 'All checks are static analyses of the TypeScript sources in /repo (TypeScript compiler API); nothing of /repo is executed or built. No hooks are needed.'
};
fs.writeFileSync(ROOT + '/MANIFEST.json', JSON.stringify(manifest, null, 1) + '\n');
console.log(claimed.map(p => p.id).join(' '), '| n/a', napp.map(p => p.id).join(' '));
