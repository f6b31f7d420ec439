/* Stand-in for mri/include/token.h. */
#ifndef _TOKEN_H_
#define _TOKEN_H_
#include <stddef.h>
#include <try_catch.h>
typedef struct
{
    const char* tokenPointers[10];
    const char* pTokenSeparators;
    size_t      tokenCount;
    char        copyOfString[64 + 1];
} Token;
#define Token_Init                                   __mriToken_Init
#define Token_InitWith                               __mriToken_InitWith
#define Token_Copy                                   __mriToken_Copy
#define Token_SplitString                            __mriToken_SplitString
#define Token_GetTokenCount                          __mriToken_GetTokenCount
#define Token_GetToken                               __mriToken_GetToken
#define Token_MatchingString                         __mriToken_MatchingString
#define Token_MatchingStringPrefix                   __mriToken_MatchingStringPrefix
void        Token_Init(Token* pToken);
void        Token_InitWith(Token* pToken, const char* pTokenSeparators);
void        Token_Copy(Token* pTokenCopy, Token* pTokenOriginal);
void        Token_SplitString(Token* pToken, const char* pTheString);
size_t      Token_GetTokenCount(Token* pToken);
const char* Token_GetToken(Token* pToken, size_t tokenIndex);
const char* Token_MatchingString(Token* pToken, const char* pTokenToSearchFor);
const char* Token_MatchingStringPrefix(Token* pToken, const char* pTokenPrefixToSearchFor);
#endif
