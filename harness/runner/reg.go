// Code generated by genreg.sh. DO NOT EDIT.

package main

import "verif/harness/h"

var funcs = map[string]func(){
	"C01_Method":            h.C01_Method,
	"C01_MethodRune":        h.C01_MethodRune,
	"C01_Path":              h.C01_Path,
	"C02_Alike":             h.C02_Alike,
	"C02_Foreign":           h.C02_Foreign,
	"C02_History3":          h.C02_History3,
	"C02_History31":         h.C02_History31,
	"C02_Spec":              h.C02_Spec,
	"C02_TwoContexts3":      h.C02_TwoContexts3,
	"C02_TwoContexts31":     h.C02_TwoContexts31,
	"C03_Reference3":        h.C03_Reference3,
	"C03_Reference31":       h.C03_Reference31,
	"C03_Reflect3":          h.C03_Reflect3,
	"C03_Reflect31":         h.C03_Reflect31,
	"C03_Spec3":             h.C03_Spec3,
	"C03_Spec31":            h.C03_Spec31,
	"C04_Operation3":        h.C04_Operation3,
	"C04_Operation31":       h.C04_Operation31,
	"C04_Webhooks31":        h.C04_Webhooks31,
	"C05_All":               h.C05_All,
	"C05_But":               h.C05_But,
	"C05_Focus":             h.C05_Focus,
	"C05_Min":               h.C05_Min,
	"C05_Pairs":             h.C05_Pairs,
	"C05_Reencode":          h.C05_Reencode,
	"C05_ReencodeParameter": h.C05_ReencodeParameter,
	"C05_Rich":              h.C05_Rich,
	"C06_All":               h.C06_All,
	"C06_But":               h.C06_But,
	"C06_Focus":             h.C06_Focus,
	"C06_Min":               h.C06_Min,
	"C06_Pairs":             h.C06_Pairs,
	"C06_Reencode":          h.C06_Reencode,
	"C06_Rich":              h.C06_Rich,
	"C07_Bearer":            h.C07_Bearer,
	"C07_Const3":            h.C07_Const3,
	"C07_Const31":           h.C07_Const31,
	"C07_EncodeEnum3":       h.C07_EncodeEnum3,
	"C07_EncodeEnum31":      h.C07_EncodeEnum31,
	"C07_Enum3":             h.C07_Enum3,
	"C07_Enum31":            h.C07_Enum31,
	"C07_Exclusive3":        h.C07_Exclusive3,
	"C07_Exclusive31":       h.C07_Exclusive31,
	"C07_Kinds3":            h.C07_Kinds3,
	"C07_Kinds31":           h.C07_Kinds31,
	"C07_Missing3":          h.C07_Missing3,
	"C07_Missing31":         h.C07_Missing31,
	"C07_NestedConst3":      h.C07_NestedConst3,
	"C07_NestedConst31":     h.C07_NestedConst31,
	"C07_NestedEnum3":       h.C07_NestedEnum3,
	"C07_NestedEnum31":      h.C07_NestedEnum31,
	"C07_NestedExclusive3":  h.C07_NestedExclusive3,
	"C07_NestedExclusive31": h.C07_NestedExclusive31,
	"C07_NestedMissing3":    h.C07_NestedMissing3,
	"C07_NestedMissing31":   h.C07_NestedMissing31,
	"C07_NestedUnknown":     h.C07_NestedUnknown,
	"C07_Style":             h.C07_Style,
	"C07_Unknown":           h.C07_Unknown,
	"C08_Alternatives3":     h.C08_Alternatives3,
	"C08_Alternatives31":    h.C08_Alternatives31,
	"C08_InlineAll3":        h.C08_InlineAll3,
	"C08_InlineAll31":       h.C08_InlineAll31,
	"C08_InlineMin3":        h.C08_InlineMin3,
	"C08_InlineMin31":       h.C08_InlineMin31,
	"C08_InlinePair3":       h.C08_InlinePair3,
	"C08_InlinePair31":      h.C08_InlinePair31,
	"C08_InlineRich3":       h.C08_InlineRich3,
	"C08_InlineRich31":      h.C08_InlineRich31,
	"C08_Ref3":              h.C08_Ref3,
	"C08_Ref31":             h.C08_Ref31,
	"C08_SetReference":      h.C08_SetReference,
	"C09_Annotations":       h.C09_Annotations,
	"C09_Bool":              h.C09_Bool,
	"C09_Contexts":          h.C09_Contexts,
	"C09_Deep":              h.C09_Deep,
	"C09_Nested":            h.C09_Nested,
	"C09_Pairs":             h.C09_Pairs,
	"C09_Root":              h.C09_Root,
	"C09_Sibling":           h.C09_Sibling,
	"C09_Wide":              h.C09_Wide,
	"C10_Annotations":       h.C10_Annotations,
	"C10_Component":         h.C10_Component,
	"C10_Contexts":          h.C10_Contexts,
	"C10_Deep":              h.C10_Deep,
	"C10_Nested":            h.C10_Nested,
	"C10_Pairs":             h.C10_Pairs,
	"C10_Root":              h.C10_Root,
	"C10_Sibling":           h.C10_Sibling,
	"C10_Wide":              h.C10_Wide,
	"C11_Long":              h.C11_Long,
	"C11_Resolve":           h.C11_Resolve,
	"C11_Three3":            h.C11_Three3,
	"C11_Three31":           h.C11_Three31,
	"C11_Two3":              h.C11_Two3,
	"C11_Two31":             h.C11_Two31,
	"C12_Ints":              h.C12_Ints,
	"C12_Keys":              h.C12_Keys,
	"C12_Numbers":           h.C12_Numbers,
	"C12_Slots":             h.C12_Slots,
	"C12_Spec3":             h.C12_Spec3,
	"C12_Spec31":            h.C12_Spec31,
	"C12_Values":            h.C12_Values,
	"C13_Again":             h.C13_Again,
	"C13_Body":              h.C13_Body,
	"C13_Embedded":          h.C13_Embedded,
	"C13_Mapping":           h.C13_Mapping,
	"C13_Multi":             h.C13_Multi,
	"C13_Recursive":         h.C13_Recursive,
	"C13_Single":            h.C13_Single,
	"C14_Again":             h.C14_Again,
	"C14_Enforced":          h.C14_Enforced,
	"C14_Fields":            h.C14_Fields,
	"C14_Mapping":           h.C14_Mapping,
	"C14_Several":           h.C14_Several,
	"C14_Tagless":           h.C14_Tagless,
	"C15_Again":             h.C15_Again,
	"C15_Bare":              h.C15_Bare,
	"C15_Collision":         h.C15_Collision,
	"C15_Customize":         h.C15_Customize,
	"C15_Merge":             h.C15_Merge,
	"C15_Status":            h.C15_Status,
	"C16_Multipart":         h.C16_Multipart,
	"C16_Named":             h.C16_Named,
	"C16_Request":           h.C16_Request,
	"C16_Response":          h.C16_Response,
	"C17_Builders3":         h.C17_Builders3,
	"C17_Builders31":        h.C17_Builders31,
	"C17_Operations":        h.C17_Operations,
	"C18_Bytes":             h.C18_Bytes,
	"C18_Info":              h.C18_Info,
	"C18_Schemes":           h.C18_Schemes,
	"C18_Text":              h.C18_Text,
	"C19_Full":              h.C19_Full,
	"C19_Moved":             h.C19_Moved,
	"C19_Setters":           h.C19_Setters,
	"C19_Units":             h.C19_Units,
	"C19_Unknown":           h.C19_Unknown,
	"C20_Encodings":         h.C20_Encodings,
	"C20_Pair":              h.C20_Pair,
	"C20_Registered":        h.C20_Registered,
	"C20_Single":            h.C20_Single,
	"C21_Components":        h.C21_Components,
	"C21_Customize":         h.C21_Customize,
	"C21_History":           h.C21_History,
	"C21_Parameter":         h.C21_Parameter,
	"C21_Request":           h.C21_Request,
	"C21_Response":          h.C21_Response,
	"C22_Codec":             h.C22_Codec,
	"C22_Placeholders":      h.C22_Placeholders,
	"C22_Reflect":           h.C22_Reflect,
	"C22_Schemas":           h.C22_Schemas,
	"C22_Walk":              h.C22_Walk,
	"C23_Fail":              h.C23_Fail,
	"C23_Outside":           h.C23_Outside,
	"C23_Skip":              h.C23_Skip,
	"C23_Stages":            h.C23_Stages,
	"C23_Told":              h.C23_Told,
	"C23_Walk":              h.C23_Walk,
	"C24_Both":              h.C24_Both,
	"C24_Request":           h.C24_Request,
	"C24_Response":          h.C24_Response,
	"C25_Headers":           h.C25_Headers,
	"C25_JSON":              h.C25_JSON,
	"C25_Styles":            h.C25_Styles,
	"C25_YAML":              h.C25_YAML,
	"C26_Agree":             h.C26_Agree,
	"C26_Attrs":             h.C26_Attrs,
	"C26_Root":              h.C26_Root,
	"C26_Tags":              h.C26_Tags,
	"C27_Chain":             h.C27_Chain,
	"C27_Customize":         h.C27_Customize,
	"C28_Preset":            h.C28_Preset,
	"C28_References":        h.C28_References,
	"C29_Again":             h.C29_Again,
	"C29_Embedded":          h.C29_Embedded,
	"C29_Mapping":           h.C29_Mapping,
	"C29_Order":             h.C29_Order,
	"C29_Pointers":          h.C29_Pointers,
	"C29_Responses":         h.C29_Responses,
	"C29_Split":             h.C29_Split,
	"C29_Virtual":           h.C29_Virtual,
	"C30_Kinds":             h.C30_Kinds,
	"C30_Null":              h.C30_Null,
	"C30_Texts":             h.C30_Texts,
	"C30_Twice":             h.C30_Twice,
	"C30_Types":             h.C30_Types,
}
