/* translated texts, used by the CFG_TRANSLATED builds */
#undef USH_CONFIG_TRANSLATION_OK
#define USH_CONFIG_TRANSLATION_OK "w porzadku"
#undef USH_CONFIG_TRANSLATION_ERROR
#define USH_CONFIG_TRANSLATION_ERROR "blad"
#undef USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND
#define USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND "nie ma takiego katalogu"
#undef USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST
#define USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST "a"
#undef USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE
#define USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE "b%d"
#undef USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED
#define USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED "katalog jest juz zamontowany w tym miejscu"
#undef USH_CONFIG_TRANSLATION_SYNTAX_ERROR
#define USH_CONFIG_TRANSLATION_SYNTAX_ERROR "skladnia"
#undef USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS
#define USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS "zle argumenty"
#undef USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE
#define USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE "nie da sie wykonac"
#undef USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE
#define USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE "nie do zapisu"
#undef USH_CONFIG_TRANSLATION_FILE_NOT_READABLE
#define USH_CONFIG_TRANSLATION_FILE_NOT_READABLE "nie do odczytu"
#undef USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE
#define USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE "brak pomocy"
#undef USH_CONFIG_TRANSLATION_FILE_NOT_FOUND
#define USH_CONFIG_TRANSLATION_FILE_NOT_FOUND ""
#undef USH_CONFIG_TRANSLATION_READ_ONLY_FILE
#define USH_CONFIG_TRANSLATION_READ_ONLY_FILE "tylko do odczytu"
#define CFG_STATUS_TEXTS "w porzadku", "blad: nie ma takiego katalogu", "blad: a", "blad: b%d", "blad: katalog jest juz zamontowany w tym miejscu", "blad: skladnia", "blad: zle argumenty", "blad: nie da sie wykonac", "blad: nie do zapisu", "blad: nie do odczytu", "blad: brak pomocy", "blad: ", "blad: tylko do odczytu"
