/* Key names and the codes they denote: the documented names (keyd list-keys) with the codes of linux/input-event-codes.h,
   and keyd's own pseudo keys. code, name, alternative name, name when shifted (US layout). */
static const struct { unsigned char code; const char *name, *alt, *shifted; } key_names[] = {
	{1, "esc", "escape", 0},
	{2, "1", 0, "!"},
	{3, "2", 0, "@"},
	{4, "3", 0, "#"},
	{5, "4", 0, "$"},
	{6, "5", 0, "%"},
	{7, "6", 0, "^"},
	{8, "7", 0, "&"},
	{9, "8", 0, "*"},
	{10, "9", 0, "("},
	{11, "0", 0, ")"},
	{12, "-", "minus", "_"},
	{13, "=", "equal", "+"},
	{14, "backspace", 0, 0},
	{15, "tab", 0, 0},
	{16, "q", 0, "Q"},
	{17, "w", 0, "W"},
	{18, "e", 0, "E"},
	{19, "r", 0, "R"},
	{20, "t", 0, "T"},
	{21, "y", 0, "Y"},
	{22, "u", 0, "U"},
	{23, "i", 0, "I"},
	{24, "o", 0, "O"},
	{25, "p", 0, "P"},
	{26, "[", "leftbrace", "{"},
	{27, "]", "rightbrace", "}"},
	{28, "enter", 0, 0},
	{29, "leftcontrol", 0, 0},
	{30, "a", 0, "A"},
	{31, "s", 0, "S"},
	{32, "d", 0, "D"},
	{33, "f", 0, "F"},
	{34, "g", 0, "G"},
	{35, "h", 0, "H"},
	{36, "j", 0, "J"},
	{37, "k", 0, "K"},
	{38, "l", 0, "L"},
	{39, ";", "semicolon", ":"},
	{40, "'", "apostrophe", "\""},
	{41, "`", "grave", "~"},
	{42, "leftshift", 0, 0},
	{43, "\\", "backslash", "|"},
	{44, "z", 0, "Z"},
	{45, "x", 0, "X"},
	{46, "c", 0, "C"},
	{47, "v", 0, "V"},
	{48, "b", 0, "B"},
	{49, "n", 0, "N"},
	{50, "m", 0, "M"},
	{51, ",", "comma", "<"},
	{52, ".", "dot", ">"},
	{53, "/", "slash", "?"},
	{54, "rightshift", 0, 0},
	{55, "kpasterisk", 0, 0},
	{56, "leftalt", 0, 0},
	{57, "space", 0, 0},
	{58, "capslock", 0, 0},
	{59, "f1", 0, 0},
	{60, "f2", 0, 0},
	{61, "f3", 0, 0},
	{62, "f4", 0, 0},
	{63, "f5", 0, 0},
	{64, "f6", 0, 0},
	{65, "f7", 0, 0},
	{66, "f8", 0, 0},
	{67, "f9", 0, 0},
	{68, "f10", 0, 0},
	{69, "numlock", 0, 0},
	{70, "scrolllock", 0, 0},
	{71, "kp7", 0, 0},
	{72, "kp8", 0, 0},
	{73, "kp9", 0, 0},
	{74, "kpminus", 0, 0},
	{75, "kp4", 0, 0},
	{76, "kp5", 0, 0},
	{77, "kp6", 0, 0},
	{78, "kpplus", 0, 0},
	{79, "kp1", 0, 0},
	{80, "kp2", 0, 0},
	{81, "kp3", 0, 0},
	{82, "kp0", 0, 0},
	{83, "kpdot", 0, 0},
	{84, "iso-level3-shift", 0, 0},
	{85, "zenkakuhankaku", 0, 0},
	{86, "102nd", 0, 0},
	{87, "f11", 0, 0},
	{88, "f12", 0, 0},
	{89, "ro", 0, 0},
	{90, "katakana", 0, 0},
	{91, "hiragana", 0, 0},
	{92, "henkan", 0, 0},
	{93, "katakanahiragana", 0, 0},
	{94, "muhenkan", 0, 0},
	{95, "kpjpcomma", 0, 0},
	{96, "kpenter", 0, 0},
	{97, "rightcontrol", 0, 0},
	{98, "kpslash", 0, 0},
	{99, "sysrq", 0, 0},
	{100, "rightalt", 0, 0},
	{101, "linefeed", 0, 0},
	{102, "home", 0, 0},
	{103, "up", 0, 0},
	{104, "pageup", 0, 0},
	{105, "left", 0, 0},
	{106, "right", 0, 0},
	{107, "end", 0, 0},
	{108, "down", 0, 0},
	{109, "pagedown", 0, 0},
	{110, "insert", 0, 0},
	{111, "delete", 0, 0},
	{112, "macro", 0, 0},
	{113, "mute", 0, 0},
	{114, "volumedown", 0, 0},
	{115, "volumeup", 0, 0},
	{116, "power", 0, 0},
	{117, "kpequal", 0, 0},
	{118, "kpplusminus", 0, 0},
	{119, "pause", 0, 0},
	{120, "scale", 0, 0},
	{121, "kpcomma", 0, 0},
	{122, "hangeul", 0, 0},
	{123, "hanja", 0, 0},
	{124, "yen", 0, 0},
	{125, "leftmeta", 0, 0},
	{126, "rightmeta", 0, 0},
	{127, "compose", 0, 0},
	{128, "stop", 0, 0},
	{129, "again", 0, 0},
	{130, "props", 0, 0},
	{131, "undo", 0, 0},
	{132, "front", 0, 0},
	{133, "copy", 0, 0},
	{134, "open", 0, 0},
	{135, "paste", 0, 0},
	{136, "find", 0, 0},
	{137, "cut", 0, 0},
	{138, "help", 0, 0},
	{139, "menu", 0, 0},
	{140, "calc", 0, 0},
	{141, "setup", 0, 0},
	{142, "sleep", 0, 0},
	{143, "wakeup", 0, 0},
	{144, "file", 0, 0},
	{145, "sendfile", 0, 0},
	{146, "deletefile", 0, 0},
	{147, "xfer", 0, 0},
	{148, "scrolldown", 0, 0},
	{149, "scrollup", 0, 0},
	{150, "www", 0, 0},
	{151, "msdos", 0, 0},
	{152, "coffee", 0, 0},
	{153, "display", 0, 0},
	{154, "cyclewindows", 0, 0},
	{155, "mail", 0, 0},
	{156, "bookmarks", 0, 0},
	{157, "computer", 0, 0},
	{158, "back", 0, 0},
	{159, "forward", 0, 0},
	{160, "closecd", 0, 0},
	{161, "ejectcd", 0, 0},
	{162, "ejectclosecd", 0, 0},
	{163, "nextsong", 0, 0},
	{164, "playpause", 0, 0},
	{165, "previoussong", 0, 0},
	{166, "stopcd", 0, 0},
	{167, "record", 0, 0},
	{168, "rewind", 0, 0},
	{169, "phone", 0, 0},
	{170, "iso", 0, 0},
	{171, "config", 0, 0},
	{172, "homepage", 0, 0},
	{173, "refresh", 0, 0},
	{174, "exit", 0, 0},
	{175, "move", 0, 0},
	{176, "edit", 0, 0},
	{177, "zoom", 0, 0},
	{178, "mouseback", 0, 0},
	{179, "kpleftparen", 0, 0},
	{180, "kprightparen", 0, 0},
	{181, "new", 0, 0},
	{182, "redo", 0, 0},
	{183, "f13", 0, 0},
	{184, "f14", 0, 0},
	{185, "f15", 0, 0},
	{186, "f16", 0, 0},
	{187, "f17", 0, 0},
	{188, "f18", 0, 0},
	{189, "f19", 0, 0},
	{190, "f20", 0, 0},
	{191, "f21", "prog1", 0},
	{192, "f22", "prog2", 0},
	{193, "f23", "prog3", 0},
	{194, "f24", "prog4", 0},
	{195, "noop", 0, 0},
	{200, "playcd", 0, 0},
	{201, "pausecd", 0, 0},
	{202, "scrollleft", 0, 0},
	{203, "scrollright", 0, 0},
	{204, "dashboard", 0, 0},
	{205, "suspend", 0, 0},
	{206, "close", 0, 0},
	{207, "play", 0, 0},
	{208, "fastforward", 0, 0},
	{209, "bassboost", 0, 0},
	{210, "print", 0, 0},
	{211, "hp", 0, 0},
	{212, "camera", 0, 0},
	{213, "sound", 0, 0},
	{214, "question", 0, 0},
	{215, "email", 0, 0},
	{216, "chat", 0, 0},
	{217, "search", 0, 0},
	{218, "connect", 0, 0},
	{219, "finance", 0, 0},
	{220, "sport", 0, 0},
	{221, "shop", 0, 0},
	{222, "voicecommand", 0, 0},
	{223, "cancel", 0, 0},
	{224, "brightnessdown", 0, 0},
	{225, "brightnessup", 0, 0},
	{226, "media", 0, 0},
	{227, "switchvideomode", 0, 0},
	{228, "kbdillumtoggle", 0, 0},
	{229, "kbdillumdown", 0, 0},
	{230, "kbdillumup", 0, 0},
	{231, "send", 0, 0},
	{232, "reply", 0, 0},
	{233, "forwardmail", 0, 0},
	{234, "save", 0, 0},
	{235, "documents", 0, 0},
	{236, "battery", 0, 0},
	{237, "bluetooth", 0, 0},
	{238, "wlan", 0, 0},
	{239, "uwb", 0, 0},
	{240, "unknown", 0, 0},
	{241, "next", 0, 0},
	{242, "prev", 0, 0},
	{243, "cycle", 0, 0},
	{244, "auto", 0, 0},
	{245, "off", 0, 0},
	{246, "wwan", 0, 0},
	{247, "rfkill", 0, 0},
	{248, "micmute", 0, 0},
	{249, "leftmouse", 0, 0},
	{250, "middlemouse", 0, 0},
	{251, "rightmouse", 0, 0},
	{252, "mouse1", 0, 0},
	{253, "mouse2", 0, 0},
	{254, "fn", 0, 0},
	{255, "mouseforward", 0, 0},
};
#define NKEYNAMES ((int)(sizeof key_names / sizeof *key_names))
