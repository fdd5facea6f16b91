package main

import (
	"errors"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"sync"

	"github.com/nicksnyder/go-i18n/v2/i18n"
	wrapping "github.com/pkg/errors" // as used by the library itself
	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/stock"
	"github.com/snivilised/li18ngo"
)

// C28: what an error is can be told however it is wrapped, and it says so.

type maker struct {
	name  string
	kinds string // what it is, in terms of tellers
	make  func(arg string) error
	arg   bool // the argument is part of the text
}

func fixed(err error) func(string) error { return func(string) error { return err } }

var makers = []maker{
	{"mute", "mute", core.NewInvalidNotificationMuteRequestedError, true},
	{"transition", "transition", core.NewInvalidResumeStateTransitionError, true},
	{"extended", "extended", core.NewItemAlreadyExtendedError, true},
	{"detacher", "detacher", core.NewMissingHibernationDetacherFunctionError, true},
	{"periscope", "periscope", func(a string) error { return core.NewInvalidPeriscopeRootPathError(a, "current") }, true},
	{"periscope-current", "periscope", func(a string) error { return core.NewInvalidPeriscopeRootPathError("tree", a) }, true},
	{"controller", "controller", core.NewResumeControllerNotSetError, true},
	{"topic", "topic", core.NewBrokerTopicNotFoundError, true},
	{"incase", "incase", locale.NewInvalidIncaseFilterDefError, true},
	{"globex", "globex", locale.NewInvalidExtGlobFilterMissingSeparatorError, true},
	{"trafs", "mismatch trafs", func(string) error { return locale.NewTraverseFsMismatchError() }, false},
	{"resfs", "mismatch resfs", func(string) error { return locale.NewResumeFsMismatchError() }, false},
	{"saved", "panicked saved", func(a string) error { return locale.NewTraversalSavedError(a, errClient) }, true},
	{"notsaved", "panicked notsaved", func(a string) error { return locale.NewTraversalNotSavedError(errClient, errors.New(a)) }, true},
	{"skipdir", "skipdir benign", fixed(fs.SkipDir), false},
	{"skipall", "skipall benign", fixed(fs.SkipAll), false},
	{"client", "", func(a string) error { return errors.New(a) }, true},
}

type teller struct {
	name string
	is   func(error) bool
}

var tellers = []teller{
	{"mute", core.IsInvalidNotificationMuteRequestedError},
	{"transition", core.IsInvalidResumeStateTransitionError},
	{"extended", core.IsNewItemAlreadyExtendedError},
	{"detacher", core.IsMissingHibernationDetacherFunctionError},
	{"periscope", core.IsInvalidPeriscopeRootPathError},
	{"controller", core.IsResumeControllerNotSetError},
	{"topic", core.IsBrokerTopicNotFoundError},
	{"incase", locale.IsInvalidIncaseFilterDefError},
	{"globex", locale.IsInvalidExtGlobFilterMissingSeparatorError},
	{"mismatch", locale.IsCoreResumeFsMismatchError},
	{"panicked", locale.IsCorePanicOccurredError},
	{"benign", func(err error) bool { return stock.IsBenignError(err) }},
	{"skipdir", func(err error) bool { return errors.Is(err, fs.SkipDir) }},
	{"skipall", func(err error) bool { return errors.Is(err, fs.SkipAll) }},
	{"trafs", as[*locale.TraverseFsMismatchError]},
	{"resfs", as[*locale.ResumeFsMismatchError]},
	{"saved", as[*locale.TraversalSavedError]},
	{"notsaved", as[*locale.TraversalNotSavedError]},
}

func as[T error](err error) bool {
	var t T
	return errors.As(err, &t)
}

// the ones which are always the same value
var sentinels = map[string]error{
	"FilterIsNil":                           locale.ErrFilterIsNil,
	"FilterMissingType":                     locale.ErrFilterMissingType,
	"FilterCustomNotSupported":              locale.ErrFilterCustomNotSupported,
	"FilterChildGlobExNotSupported":         locale.ErrFilterChildGlobExNotSupported,
	"FilterUndefined":                       locale.ErrFilterUndefined,
	"InternalFailedToGetNavigatorDriver":    locale.ErrInternalFailedToGetNavigatorDriver,
	"WorkerPoolCreationFailed":              locale.ErrWorkerPoolCreationFailed,
	"InvalidFileSamplingSpecMissingFiles":   locale.ErrInvalidFileSamplingSpecMissingFiles,
	"InvalidSamplingSpecMissingDirectories": locale.ErrInvalidSamplingSpecMissingDirectories,
	"MissingCustomFilterDefinition":         locale.ErrMissingCustomFilterDefinition,
	"PolyFilterIsInvalid":                   locale.ErrPolyFilterIsInvalid,
	"UsageMissingTreePath":                  locale.ErrUsageMissingTreePath,
	"UsageMissingRestorePath":               locale.ErrUsageMissingRestorePath,
	"UsageMissingSubscription":              locale.ErrUsageMissingSubscription,
	"UsageMissingHandler":                   locale.ErrUsageMissingHandler,
	"IDGeneratorFuncCantBeNil":              locale.ErrIDGeneratorFuncCantBeNil,
	"UnEqualConversion":                     locale.ErrUnEqualConversion,
	"CoreResumeFsMismatch":                  locale.ErrCoreResumeFsMismatch,
	"CorePanicOccurred":                     locale.ErrCorePanicOccurred,
	"GuardianCantDecorateItemSealed":        core.ErrGuardianCantDecorateItemSealed,
	"DetectedSpawnStackOverflow":            core.ErrDetectedSpawnStackOverflow,
	"WrongPrimaryFacade":                    core.ErrWrongPrimaryFacade,
	"WrongResumeFacade":                     core.ErrWrongResumeFacade,
	"NilForest":                             core.ErrNilForest,
	"StackIsEmpty":                          collections.ErrStackIsEmpty,
}

var sentinelKinds = map[string]string{"CoreResumeFsMismatch": "mismatch", "CorePanicOccurred": "panicked"}

// what is shown for them, and for the others
var messages = map[string]interface{ Message() *i18n.Message }{
	"FilterIsNil":                           locale.FilterIsNilErrorTemplData{},
	"FilterMissingType":                     locale.FilterMissingTypeErrorTemplData{},
	"FilterCustomNotSupported":              locale.FilterCustomNotSupportedErrorTemplData{},
	"FilterChildGlobExNotSupported":         locale.FilterChildGlobExNotSupportedErrorTemplData{},
	"FilterUndefined":                       locale.FilterUndefinedErrorTemplData{},
	"InternalFailedToGetNavigatorDriver":    locale.InternalFailedToGetNavigatorDriverErrorTemplData{},
	"InvalidIncaseFilterDef":                locale.InvalidIncaseFilterDefTemplData{},
	"CoreInvalidIncaseFilterDef":            locale.CoreInvalidIncaseFilterDefErrorTemplData{},
	"WorkerPoolCreationFailed":              locale.WorkerPoolCreationFailedErrorTemplData{},
	"InvalidSamplingSpecMissingFiles":       locale.InvalidSamplingSpecMissingFilesErrorTemplData{},
	"InvalidSamplingSpecMissingDirectories": locale.InvalidSamplingSpecMissingDirectoriesErrorTemplData{},
	"MissingCustomFilterDefinition":         locale.MissingCustomFilterDefinitionErrorTemplData{},
	"PatternField":                          locale.PatternFieldTemplData{},
	"InvalidExtGlob":                        locale.InvalidExtGlobFilterMissingSeparatorErrorTemplData{},
	"CoreInvalidExtGlob":                    locale.CoreInvalidExtGlobFilterMissingSeparatorErrorTemplData{},
	"PolyFilterIsInvalid":                   locale.PolyFilterIsInvalidTemplData{},
	"UsageMissingTreePath":                  locale.UsageMissingTreePathErrorTemplData{},
	"UsageMissingRestorePath":               locale.UsageMissingRestorePathErrorTemplData{},
	"UsageMissingSubscription":              locale.UsageMissingSubscriptionErrorTemplData{},
	"UsageMissingHandler":                   locale.UsageMissingHandlerErrorTemplData{},
	"IDGeneratorFuncCantBeNil":              locale.IDGeneratorFuncCantBeNilErrorTemplData{},
	"UnEqualJSONConversion":                 locale.UnEqualJSONConversionErrorTemplData{},
	"InvalidPath":                           locale.InvalidPathTemplData{},
	"TraverseFsMismatch":                    locale.TraverseFsMismatchTemplData{},
	"ResumeFsMismatch":                      locale.ResumeFsMismatchTemplData{},
	"CoreResumeFsMismatch":                  locale.CoreResumeFsMismatchErrorTemplData{},
	"TraversalSaved":                        locale.TraversalSavedTemplData{},
	"TraversalNotSaved":                     locale.TraversalNotSavedTemplData{},
	"CorePanicOccurred":                     locale.CorePanicOccurredErrorTemplData{},
}

var useTexts sync.Once

func allMakers() []maker {
	out := append([]maker{}, makers...)
	names := []string{}
	for name := range sentinels {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		kinds := strings.TrimSpace(sentinelKinds[name] + " =" + name)
		if name == "CoreResumeFsMismatch" || name == "CorePanicOccurred" {
			kinds = sentinelKinds[name]
		}
		out = append(out, maker{name, kinds, fixed(sentinels[name]), false})
	}
	return out
}

func allTellers() []teller {
	out := append([]teller{}, tellers...)
	for _, m := range allMakers() {
		if err := sentinels[m.name]; err != nil && sentinelKinds[m.name] == "" {
			out = append(out, teller{"=" + m.name, func(e error) bool { return errors.Is(e, err) }})
		}
	}
	for name, kind := range sentinelKinds {
		err := sentinels[name]
		out = append(out, teller{kind, func(e error) bool { return errors.Is(e, err) }})
	}
	return out
}

func makerOf(name string) *maker {
	for _, m := range allMakers() {
		if m.name == name {
			return &m
		}
	}
	return nil
}

var errArgs = []string{"", "a", "{{.Pattern}}", "%s%d%", "<b>&\"'", "two\nlines", "/p q/ü"}

// checkErr: Extra is "maker|number of the argument|wrapping wrapping".
func checkErr(c *Case) (v verdict) {
	useTexts.Do(func() { _ = li18ngo.Use() })
	if c.Extra == "tables" {
		return checkErrTables()
	}
	parts := strings.Split(c.Extra, "|")
	m := makerOf(parts[0])
	arg := errArgs[int(parts[1][0]-'0')]
	err := m.make(arg)
	own := err
	kinds := " " + m.kinds + " "
	texts := []string{err.Error()}
	if m.arg {
		texts = append(texts, arg)
	}
	for _, w := range strings.Fields(parts[2]) {
		how, with, _ := strings.Cut(w, ":")
		var other error
		if with != "" {
			o := makerOf(with)
			other = o.make("other")
			kinds += o.kinds + " "
			texts = append(texts, other.Error())
		}
		switch how {
		case "fmt":
			err = fmt.Errorf("outside: %w", err)
		case "pkg":
			err = wrapping.Wrap(err, "outside")
		case "msg":
			err = wrapping.WithMessage(err, "outside")
		case "join":
			err = errors.Join(err, other)
		case "niol":
			err = errors.Join(other, err)
		case "both":
			err = fmt.Errorf("%w and %w", other, err)
		}
	}
	v.execs = 1
	v.steps = append([]string{m.name, parts[1]}, strings.Fields(parts[2])...)
	found := []string{}
	for _, t := range allTellers() {
		want := strings.Contains(kinds, " "+t.name+" ")
		got := t.is(err)
		if got {
			found = append(found, t.name)
		}
		if want != got && v.bad == "" {
			v.bad = fmt.Sprintf("%s: is it %s? expected %v, got %v (%T)", c.Extra, t.name, want, got, own)
		}
	}
	text := err.Error()
	for _, want := range texts {
		if !strings.Contains(text, want) && v.bad == "" {
			v.bad = fmt.Sprintf("%s: the text %q does not say %q", c.Extra, text, want)
		}
	}
	if strings.TrimSpace(own.Error()) == "" && m.name != "client" && v.bad == "" {
		v.bad = c.Extra + ": has no text"
	}
	v.sig = strings.Join(found, " ")
	return v
}

// checkErrTables: no two of them look the same.
func checkErrTables() (v verdict) {
	seen := map[string]string{}
	all := allMakers()
	for _, m := range all {
		text := m.make("x").Error()
		if other, ok := seen[text]; ok && v.bad == "" && m.name != "periscope-current" {
			v.bad = fmt.Sprintf("%s and %s both read %q", other, m.name, text)
		}
		seen[text] = m.name
		v.steps = append(v.steps, m.name)
		if m.make("x") == nil && v.bad == "" {
			v.bad = m.name + " is nil"
		}
	}
	ids := map[string]string{}
	for name, d := range messages {
		msg := d.Message()
		if other, ok := ids[msg.ID]; ok && v.bad == "" {
			v.bad = fmt.Sprintf("%s and %s are translated as the same message %s", other, name, msg.ID)
		}
		ids[msg.ID] = name
		if (msg.ID == "" || msg.Other == "") && v.bad == "" {
			v.bad = name + " has no message"
		}
	}
	v.execs = len(all)
	v.sig = "tables"
	if !stock.IsBenignError(nil) && v.bad == "" {
		v.bad = "no error is not benign"
	}
	return v
}

func genErrs(th bool, fn yield) {
	if !fn(&Case{Sub: allSubs[0], Extra: "tables"}) {
		return
	}
	wraps := []string{"fmt", "pkg", "msg"}
	for _, m := range allMakers() {
		for _, how := range []string{"join", "niol", "both"} {
			wraps = append(wraps, how+":"+m.name)
		}
	}
	seqs := []string{""}
	for _, a := range wraps {
		seqs = append(seqs, a)
		for _, b := range wraps {
			seqs = append(seqs, a+" "+b)
			if th {
				for _, x := range wraps[:3] {
					seqs = append(seqs, x+" "+a+" "+b, a+" "+x+" "+b, a+" "+b+" "+x)
				}
			}
		}
	}
	for _, m := range allMakers() {
		for i := range errArgs {
			if i > 0 && !m.arg && m.name != "client" {
				break
			}
			for _, s := range seqs {
				if i > 1 && strings.Contains(s, " ") {
					continue
				}
				if !fn(&Case{Sub: allSubs[0], Extra: fmt.Sprintf("%s|%d|%s", m.name, i, s)}) {
					return
				}
			}
		}
	}
}
