/* Build configuration used by the checks: the repository's POSIX configuration with
 * assertions reported to the harness and the switches of this build applied on top. */
#ifndef VERIF_USH_CFG_H
#define VERIF_USH_CFG_H
#ifdef CFG_ARDUINO      /* the repository's Arduino configuration: assertions compiled out */
#include "config/arduino/ush_config.h"
#else
#include "config/posix/ush_config.h"
#undef USH_ASSERT
#ifdef __cplusplus
extern "C"
#endif
void ush_sym_assert_failed(const char *file, int line);
#define USH_ASSERT(cond) { if (!(cond)) { ush_sym_assert_failed(__FILE__, __LINE__); } }
#endif
#ifdef CFG_ALIGN
#undef USH_CONFIG_FILENAME_ALIGN_SPACE
#define USH_CONFIG_FILENAME_ALIGN_SPACE CFG_ALIGN
#endif
#ifdef CFG_COLUMNS
#undef USH_CONFIG_CMD_XXD_COLUMNS
#define USH_CONFIG_CMD_XXD_COLUMNS CFG_COLUMNS
#endif
#ifdef CFG_TRANSLATED   /* every text replaced; lengths from 0 to 40 */
#include "ush_texts.h"
#endif
#ifdef CFG_STYLES
#undef USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES
#define USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES CFG_STYLES
#endif
#ifdef CFG_AUTOCOMPLETE
#undef USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE
#define USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE CFG_AUTOCOMPLETE
#endif
#ifdef CFG_COMMANDS
#undef USH_CONFIG_ENABLE_FEATURE_COMMANDS
#define USH_CONFIG_ENABLE_FEATURE_COMMANDS CFG_COMMANDS
#endif
#ifdef CFG_CAT
#undef USH_CONFIG_ENABLE_COMMAND_CAT
#define USH_CONFIG_ENABLE_COMMAND_CAT CFG_CAT
#endif
#ifdef CFG_CD
#undef USH_CONFIG_ENABLE_COMMAND_CD
#define USH_CONFIG_ENABLE_COMMAND_CD CFG_CD
#endif
#ifdef CFG_ECHO
#undef USH_CONFIG_ENABLE_COMMAND_ECHO
#define USH_CONFIG_ENABLE_COMMAND_ECHO CFG_ECHO
#endif
#ifdef CFG_HELP
#undef USH_CONFIG_ENABLE_COMMAND_HELP
#define USH_CONFIG_ENABLE_COMMAND_HELP CFG_HELP
#endif
#ifdef CFG_LS
#undef USH_CONFIG_ENABLE_COMMAND_LS
#define USH_CONFIG_ENABLE_COMMAND_LS CFG_LS
#endif
#ifdef CFG_PWD
#undef USH_CONFIG_ENABLE_COMMAND_PWD
#define USH_CONFIG_ENABLE_COMMAND_PWD CFG_PWD
#endif
#ifdef CFG_XXD
#undef USH_CONFIG_ENABLE_COMMAND_XXD
#define USH_CONFIG_ENABLE_COMMAND_XXD CFG_XXD
#endif
#endif
