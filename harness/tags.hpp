// The tags that HTML defines, from the HTML standard (names of hext::HtmlTag).
#pragma once
#define VF_TAGS(X) \
  X(HTML) \
  X(HEAD) \
  X(TITLE) \
  X(BASE) \
  X(LINK) \
  X(META) \
  X(STYLE) \
  X(SCRIPT) \
  X(NOSCRIPT) \
  X(TEMPLATE) \
  X(BODY) \
  X(ARTICLE) \
  X(SECTION) \
  X(NAV) \
  X(ASIDE) \
  X(H1) \
  X(H2) \
  X(H3) \
  X(H4) \
  X(H5) \
  X(H6) \
  X(HGROUP) \
  X(HEADER) \
  X(FOOTER) \
  X(ADDRESS) \
  X(P) \
  X(HR) \
  X(PRE) \
  X(BLOCKQUOTE) \
  X(OL) \
  X(UL) \
  X(LI) \
  X(DL) \
  X(DT) \
  X(DD) \
  X(FIGURE) \
  X(FIGCAPTION) \
  X(MAIN) \
  X(DIV) \
  X(A) \
  X(EM) \
  X(STRONG) \
  X(SMALL) \
  X(S) \
  X(CITE) \
  X(Q) \
  X(DFN) \
  X(ABBR) \
  X(DATA) \
  X(TIME) \
  X(CODE) \
  X(VAR) \
  X(SAMP) \
  X(KBD) \
  X(SUB) \
  X(SUP) \
  X(I) \
  X(B) \
  X(U) \
  X(MARK) \
  X(RUBY) \
  X(RT) \
  X(RP) \
  X(BDI) \
  X(BDO) \
  X(SPAN) \
  X(BR) \
  X(WBR) \
  X(INS) \
  X(DEL) \
  X(IMAGE) \
  X(IMG) \
  X(IFRAME) \
  X(EMBED) \
  X(OBJECT) \
  X(PARAM) \
  X(VIDEO) \
  X(AUDIO) \
  X(SOURCE) \
  X(TRACK) \
  X(CANVAS) \
  X(MAP) \
  X(AREA) \
  X(MATH) \
  X(MI) \
  X(MO) \
  X(MN) \
  X(MS) \
  X(MTEXT) \
  X(MGLYPH) \
  X(MALIGNMARK) \
  X(ANNOTATION_XML) \
  X(SVG) \
  X(FOREIGNOBJECT) \
  X(DESC) \
  X(TABLE) \
  X(CAPTION) \
  X(COLGROUP) \
  X(COL) \
  X(TBODY) \
  X(THEAD) \
  X(TFOOT) \
  X(TR) \
  X(TD) \
  X(TH) \
  X(FORM) \
  X(FIELDSET) \
  X(LEGEND) \
  X(LABEL) \
  X(INPUT) \
  X(BUTTON) \
  X(SELECT) \
  X(DATALIST) \
  X(OPTGROUP) \
  X(OPTION) \
  X(TEXTAREA) \
  X(KEYGEN) \
  X(OUTPUT) \
  X(PROGRESS) \
  X(METER) \
  X(DETAILS) \
  X(SUMMARY) \
  X(MENU) \
  X(MENUITEM) \
  X(APPLET) \
  X(ACRONYM) \
  X(BGSOUND) \
  X(DIR) \
  X(FRAME) \
  X(FRAMESET) \
  X(NOFRAMES) \
  X(ISINDEX) \
  X(LISTING) \
  X(XMP) \
  X(NEXTID) \
  X(NOEMBED) \
  X(PLAINTEXT) \
  X(RB) \
  X(STRIKE) \
  X(BASEFONT) \
  X(BIG) \
  X(BLINK) \
  X(CENTER) \
  X(FONT) \
  X(MARQUEE) \
  X(MULTICOL) \
  X(NOBR) \
  X(SPACER) \
  X(TT) \
  X(RTC)
