#include <unicode/uchar.h>
#include <unicode/ustring.h>
#include <unicode/unorm2.h>
#include <stdio.h>
#include <string.h>
int main(){ UProperty en[]={UCHAR_GENERAL_CATEGORY,UCHAR_SCRIPT,UCHAR_BLOCK,UCHAR_CANONICAL_COMBINING_CLASS,UCHAR_DECOMPOSITION_TYPE,UCHAR_BIDI_CLASS,UCHAR_HANGUL_SYLLABLE_TYPE,UCHAR_GRAPHEME_CLUSTER_BREAK,UCHAR_WORD_BREAK,UCHAR_INDIC_SYLLABIC_CATEGORY};
 const char*nm[]={"gc","sc","blk","ccc","dt","bc","hst","gcb","wb","insc"};
 for(int k=0;k<10;k++){ FILE*f; char fn[64]; sprintf(fn,"/tmp/icu.%s",nm[k]); f=fopen(fn,"w"); int pv=-9; for(UChar32 c=0;c<=0x10FFFF;c++){ int v=u_getIntPropertyValue(c,en[k]); if(v!=pv){ const char*s=u_getPropertyValueName(en[k],v,U_SHORT_PROPERTY_NAME); if(!s) s=u_getPropertyValueName(en[k],v,U_LONG_PROPERTY_NAME); fprintf(f,"%d %s\n",c,s); pv=v; } } fclose(f);}
 struct{UProperty p;const char*n;} b[]={{UCHAR_WHITE_SPACE,"wspace"},{UCHAR_BIDI_CONTROL,"bidi_c"},{UCHAR_JOIN_CONTROL,"join_c"},{UCHAR_DASH,"dash"},{UCHAR_HYPHEN,"hyphen"},{UCHAR_QUOTATION_MARK,"qmark"},{UCHAR_TERMINAL_PUNCTUATION,"term"},{UCHAR_HEX_DIGIT,"hex"},{UCHAR_ASCII_HEX_DIGIT,"ahex"},{UCHAR_IDEOGRAPHIC,"ideo"},{UCHAR_DIACRITIC,"dia"},{UCHAR_EXTENDER,"ext"},{UCHAR_NONCHARACTER_CODE_POINT,"nchar"},{UCHAR_IDS_BINARY_OPERATOR,"idsb"},{UCHAR_IDS_TRINARY_OPERATOR,"idst"},{UCHAR_RADICAL,"radical"},{UCHAR_UNIFIED_IDEOGRAPH,"uideo"},{UCHAR_DEPRECATED,"dep"},{UCHAR_SOFT_DOTTED,"sd"},{UCHAR_LOGICAL_ORDER_EXCEPTION,"loe"},{UCHAR_S_TERM,"sterm"},{UCHAR_VARIATION_SELECTOR,"vs"},{UCHAR_PATTERN_WHITE_SPACE,"pat_ws"},{UCHAR_PATTERN_SYNTAX,"pat_syn"},{UCHAR_PREPENDED_CONCATENATION_MARK,"pcm"},{UCHAR_REGIONAL_INDICATOR,"ri"},{UCHAR_MATH,"math"},{UCHAR_ALPHABETIC,"alpha"},{UCHAR_LOWERCASE,"lower"},{UCHAR_UPPERCASE,"upper"},{UCHAR_CASED,"cased"},{UCHAR_CASE_IGNORABLE,"ci"},{UCHAR_DEFAULT_IGNORABLE_CODE_POINT,"di"},{UCHAR_GRAPHEME_EXTEND,"gr_ext"},{UCHAR_ID_START,"ids"},{UCHAR_ID_CONTINUE,"idc"},{UCHAR_XID_START,"xids"},{UCHAR_XID_CONTINUE,"xidc"},{UCHAR_FULL_COMPOSITION_EXCLUSION,"comp_ex"},{UCHAR_EMOJI,"emoji"},{UCHAR_EMOJI_PRESENTATION,"epres"},{UCHAR_EMOJI_MODIFIER,"emod"},{UCHAR_EMOJI_MODIFIER_BASE,"ebase"},{UCHAR_EMOJI_COMPONENT,"ecomp"},{UCHAR_EXTENDED_PICTOGRAPHIC,"ext_pict"}};
 for(int k=0;k<sizeof b/sizeof*b;k++){ char fn[64]; sprintf(fn,"/tmp/icu.%s",b[k].n); FILE*f=fopen(fn,"w"); int pv=-1; for(UChar32 c=0;c<=0x10FFFF;c++){int v=u_hasBinaryProperty(c,b[k].p); if(v!=pv){fprintf(f,"%d %d\n",c,v);pv=v;}} fclose(f);}
 FILE*f=fopen("/tmp/icu.age","w"); int pv=-1; for(UChar32 c=0;c<=0x10FFFF;c++){UVersionInfo v;u_charAge(c,v);int x=v[0]*100+v[1]; if(x!=pv){fprintf(f,"%d V%d_%d\n",c,v[0],v[1]);pv=x;}} fclose(f);
 f=fopen("/tmp/icu.na","w"); for(UChar32 c=0;c<=0x10FFFF;c++){char n[256];UErrorCode e=0;u_charName(c,U_UNICODE_CHAR_NAME,n,256,&e);fprintf(f,"%s\n",n);} fclose(f);
 const char*fm[]={"nfd","nfkd","nfc","nfkc"};
 UErrorCode e=0; const UNormalizer2*nn[]={unorm2_getNFDInstance(&e),unorm2_getNFKDInstance(&e),unorm2_getNFCInstance(&e),unorm2_getNFKCInstance(&e)};
 for(int k=0;k<4;k++){ char fn[64]; sprintf(fn,"/tmp/icu.%s",fm[k]); f=fopen(fn,"w"); for(UChar32 c=0;c<=0x10FFFF;c++){ if(c>=0xd800&&c<0xe000)continue; UChar s[4],d[128];int n=0;U16_APPEND_UNSAFE(s,n,c);e=0;int m=unorm2_normalize(nn[k],s,n,d,128,&e); int i=0; int same=(m==n&&!memcmp(s,d,2*n)); if(!same){fprintf(f,"%d",c); while(i<m){UChar32 x;U16_NEXT(d,i,m,x);fprintf(f," %d",x);} fprintf(f,"\n");}} fclose(f);}
}
