// Code generated by gen.sh; DO NOT EDIT.
package h

var All = map[string]func(){
	"P01_AnyIdent":       P01_AnyIdent,
	"P01_Arch":           P01_Arch,
	"P01_Big":            P01_Big,
	"P01_Empty":          P01_Empty,
	"P01_Large":          P01_Large,
	"P01_Object":         P01_Object,
	"P01_Tree":           P01_Tree,
	"P02_Alignments":     P02_Alignments,
	"P02_Big":            P02_Big,
	"P02_Large":          P02_Large,
	"P02_Layouts":        P02_Layouts,
	"P02_NoResources":    P02_NoResources,
	"P02_Tree":           P02_Tree,
	"P03_History":        P03_History,
	"P03_Long":           P03_Long,
	"P03_Refused":        P03_Refused,
	"P03_Stop":           P03_Stop,
	"P04_MapOrder":       P04_MapOrder,
	"P04_Names":          P04_Names,
	"P04_Order":          P04_Order,
	"P05_Big":            P05_Big,
	"P05_EmptySections":  P05_EmptySections,
	"P05_Geometry":       P05_Geometry,
	"P05_OptionalHeader": P05_OptionalHeader,
	"P05_Preserved":      P05_Preserved,
	"P05_Stub":           P05_Stub,
	"P06_Big":            P06_Big,
	"P06_EmptySections":  P06_EmptySections,
	"P06_Geometry":       P06_Geometry,
	"P06_Headers":        P06_Headers,
	"P06_NoRoom":         P06_NoRoom,
	"P06_OptionalHeader": P06_OptionalHeader,
	"P07_Content":        P07_Content,
	"P07_Long":           P07_Long,
	"P07_Policy":         P07_Policy,
	"P08_Odd":            P08_Odd,
	"P08_Options":        P08_Options,
	"P08_Refuse":         P08_Refuse,
	"P09_DataEntry":      P09_DataEntry,
	"P09_Directories":    P09_Directories,
	"P09_Directory":      P09_Directory,
	"P09_LoadAny":        P09_LoadAny,
	"P09_PatchAny":       P09_PatchAny,
	"P10_None":           P10_None,
	"P10_Some":           P10_Some,
	"P10_Types":          P10_Types,
	"P11_Get":            P11_Get,
	"P11_ImageLang":      P11_ImageLang,
	"P11_Listed":         P11_Listed,
	"P11_Loaded":         P11_Loaded,
	"P11_Many":           P11_Many,
	"P11_Refused":        P11_Refused,
	"P11_Set":            P11_Set,
	"P12_ICO":            P12_ICO,
	"P12_Many":           P12_Many,
	"P13_CUR":            P13_CUR,
	"P13_Get":            P13_Get,
	"P13_Listed":         P13_Listed,
	"P13_Many":           P13_Many,
	"P13_PNG":            P13_PNG,
	"P13_Refused":        P13_Refused,
	"P13_Set":            P13_Set,
	"P13_Shared":         P13_Shared,
	"P14_CUR":            P14_CUR,
	"P14_Entry":          P14_Entry,
	"P14_Group":          P14_Group,
	"P14_ICO":            P14_ICO,
	"P14_Image":          P14_Image,
	"P14_PNG":            P14_PNG,
	"P15_Fixed":          P15_Fixed,
	"P15_Lang":           P15_Lang,
	"P15_Long":           P15_Long,
	"P15_Many":           P15_Many,
	"P15_Refused":        P15_Refused,
	"P15_Standard":       P15_Standard,
	"P15_Strings":        P15_Strings,
	"P15_Wide":           P15_Wide,
	"P16_Content":        P16_Content,
	"P16_Fixed":          P16_Fixed,
	"P16_Lang":           P16_Lang,
	"P16_Node":           P16_Node,
	"P16_Raw":            P16_Raw,
	"P16_Stamp":          P16_Stamp,
	"P16_Tail":           P16_Tail,
	"P17_Fixed":          P17_Fixed,
	"P17_Long":           P17_Long,
	"P17_Many":           P17_Many,
	"P17_Standard":       P17_Standard,
	"P17_Strings":        P17_Strings,
	"P18_Bytes":          P18_Bytes,
	"P18_Cut":            P18_Cut,
	"P18_FlagList":       P18_FlagList,
	"P18_Flags":          P18_Flags,
	"P18_Lang":           P18_Lang,
	"P18_Language":       P18_Language,
	"P18_Long":           P18_Long,
	"P18_SameLang":       P18_SameLang,
	"P18_Shapes":         P18_Shapes,
	"P18_Strings":        P18_Strings,
	"P18_Used":           P18_Used,
	"P18_Versions":       P18_Versions,
	"P19_Long":           P19_Long,
	"P19_Main":           P19_Main,
	"P19_Merge":          P19_Merge,
	"P19_MergeEmpty":     P19_MergeEmpty,
	"P19_MergeFixed":     P19_MergeFixed,
	"P19_MergeOne":       P19_MergeOne,
	"P19_Orders":         P19_Orders,
	"P19_Split":          P19_Split,
	"P19_Standard":       P19_Standard,
	"P19_Store":          P19_Store,
	"P20_Any":            P20_Any,
	"P20_Bytes":          P20_Bytes,
	"P20_Numbers":        P20_Numbers,
	"P20_Standard":       P20_Standard,
	"P21_Read":           P21_Read,
	"P21_Trip":           P21_Trip,
	"P21_Write":          P21_Write,
	"P21_Zero":           P21_Zero,
	"P22_Flags":          P22_Flags,
	"P22_Long":           P22_Long,
	"P22_Options":        P22_Options,
	"P22_Text":           P22_Text,
	"P22_Version":        P22_Version,
	"P22_Wide":           P22_Wide,
	"P23_Flags":          P23_Flags,
	"P23_Long":           P23_Long,
	"P23_Number":         P23_Number,
	"P23_Numbers":        P23_Numbers,
	"P23_Options":        P23_Options,
	"P23_Shapes":         P23_Shapes,
	"P23_Short":          P23_Short,
	"P23_Text":           P23_Text,
	"P23_Version":        P23_Version,
	"P23_Word":           P23_Word,
	"P24_Bytes":          P24_Bytes,
	"P24_Controls":       P24_Controls,
	"P24_DPI":            P24_DPI,
	"P24_DPIList":        P24_DPIList,
	"P24_Level":          P24_Level,
	"P24_OS":             P24_OS,
	"P24_OldDPI":         P24_OldDPI,
	"P24_Switches":       P24_Switches,
	"P24_Version":        P24_Version,
	"P25_Empty":          P25_Empty,
	"P25_Load":           P25_Load,
	"P25_LoadImages":     P25_LoadImages,
	"P25_Object":         P25_Object,
	"P25_PatchRead":      P25_PatchRead,
	"P25_PatchWrite":     P25_PatchWrite,
	"P25_Save":           P25_Save,
	"P25_Signed":         P25_Signed,
	"P26_Images":         P26_Images,
	"P26_Load":           P26_Load,
	"P26_None":           P26_None,
	"P26_Patch":          P26_Patch,
	"P26_Signed":         P26_Signed,
	"P27_Built":          P27_Built,
	"P27_Cursor":         P27_Cursor,
	"P27_Icon":           P27_Icon,
	"P27_JSON":           P27_JSON,
	"P27_Loaded":         P27_Loaded,
	"P27_Manifest":       P27_Manifest,
	"P27_Reads":          P27_Reads,
	"P27_Twice":          P27_Twice,
	"P27_Version":        P27_Version,
	"P28_Cursor":         P28_Cursor,
	"P28_Icon":           P28_Icon,
	"P28_Largest":        P28_Largest,
	"P28_Limits":         P28_Limits,
	"P28_List":           P28_List,
	"P28_Many":           P28_Many,
	"P28_Resized":        P28_Resized,
	"P28_ResizedLimits":  P28_ResizedLimits,
	"P28_Sizes":          P28_Sizes,
	"T00_Binary":         T00_Binary,
	"T00_Blob":           T00_Blob,
	"T00_Err":            T00_Err,
	"T00_Panic":          T00_Panic,
	"T00_Sort":           T00_Sort,
	"T00_Strings":        T00_Strings,
	"T00_Utf":            T00_Utf,
}
