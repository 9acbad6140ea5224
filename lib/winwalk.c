/* Operating system side of a Windows keyboard driver. Structures are those of
 * kbd.h, independent of the ones the driver declares. The driver is included
 * below, with a 32 bit long as on Windows. Everything is printed. */
#include <wchar.h>
#include <stddef.h>
#include <stdio.h>
#include <stdint.h>

#define long int
#include DRIVER
#undef long

typedef uint16_t WC;
typedef struct { uint8_t Vk, ModBits; } OS_VK_TO_BIT;
typedef struct { OS_VK_TO_BIT *pVkToBit; uint16_t wMaxModBits; uint8_t ModNumber[]; } OS_MODIFIERS;
typedef struct { uint8_t Vsc; uint16_t Vk; } OS_VSC_VK;
typedef struct { uint8_t VirtualKey, Attributes; WC wch[]; } OS_VK_TO_WCHARS;
typedef struct { OS_VK_TO_WCHARS *p; uint8_t nModifications, cbSize; } OS_TABLE;
typedef struct { uint8_t vsc; WC *pwsz; } OS_NAME;
typedef struct {
	OS_MODIFIERS *pCharModifiers;
	OS_TABLE *pVkToWcharTable;
	void *pDeadKey;
	OS_NAME *pKeyNames, *pKeyNamesExt;
	void *pKeyNamesDead;
	uint16_t *pusVSCtoVK;
	uint8_t bMaxVSCtoVK;
	OS_VSC_VK *pVSCtoVK_E0, *pVSCtoVK_E1;
	uint32_t fLocaleFlags;
	uint8_t nLgMax, cbLgEntry;
	void *pLigature;
	uint32_t dwType, dwSubType;
} OS_KBDTABLES;

_Static_assert (sizeof (wchar_t) == 2, "wchar_t");
_Static_assert (sizeof (OS_KBDTABLES) == sizeof (KBDTABLES), "size of tables");

static OS_KBDTABLES *T;

static int scancode (int prefix, int sc) {
	if (!prefix)
		return sc < T->bMaxVSCtoVK ? T->pusVSCtoVK[sc] : 0xff;
	for (OS_VSC_VK *p = prefix == 0xe0 ? T->pVSCtoVK_E0 : T->pVSCtoVK_E1; p->Vk; p++)
		if (p->Vsc == sc)
			return p->Vk;
	return 0xff;
}

static int bits (int vk) {
	for (OS_VK_TO_BIT *p = T->pCharModifiers->pVkToBit; p->Vk; p++)
		if (p->Vk == vk)
			return p->ModBits;
	return 0;
}

/* -1 no such key, -2 no character */
static int character (int vk, int mod) {
	int found = -1;
	for (OS_TABLE *t = T->pVkToWcharTable; t->p; t++) {
		for (OS_VK_TO_WCHARS *e = t->p; e->VirtualKey; e = (OS_VK_TO_WCHARS *) ((uint8_t *) e + t->cbSize)) {
			if (e->VirtualKey != vk)
				continue;
			found = -2;
			if (mod > T->pCharModifiers->wMaxModBits)
				return -2;
			int n = T->pCharModifiers->ModNumber[mod];
			if (n == 0x0f || n >= t->nModifications)
				/* the system keeps looking in other tables */
				continue;
			if (e->wch[n] == 0xf000)
				continue;
			return e->wch[n];
		}
	}
	return found;
}

/* character to virtual key, as VkKeyScan does: first entry found wins */
static void reverse (void) {
	static uint8_t seen[0x10000];
	for (OS_TABLE *t = T->pVkToWcharTable; t->p; t++)
		for (OS_VK_TO_WCHARS *e = t->p; e->VirtualKey; e = (OS_VK_TO_WCHARS *) ((uint8_t *) e + t->cbSize))
			for (int n = 0; n < t->nModifications; n++) {
				WC c = e->wch[n];
				if ((c >= 0xf000 && c <= 0xf002) || seen[c])
					continue;
				for (int mod = 0; mod <= T->pCharModifiers->wMaxModBits; mod++)
					if (T->pCharModifiers->ModNumber[mod] == n && n != 0x0f) {
						seen[c] = 1;
						printf ("rev %d %d %d\n", c, e->VirtualKey, mod);
						break;
					}
			}
}

static void name (const char *what, OS_NAME *n) {
	for (; n->vsc; n++) {
		printf ("%s %d ", what, n->vsc);
		for (WC *c = n->pwsz; *c; c++)
			printf ("%04x", *c);
		printf ("\n");
	}
}

int main (void) {
	T = (OS_KBDTABLES *) KbdLayerDescriptor ();
	printf ("general %d %d %d %d %d %d\n", T->fLocaleFlags >> 16, T->fLocaleFlags & 0xffff, T->pDeadKey != NULL, T->nLgMax, T->pLigature != NULL, T->pKeyNamesDead != NULL);
	const int prefix[] = {0, 0xe0, 0xe1};
	for (int i = 0; i < 3; i++)
		for (int sc = 0; sc < 256; sc++)
			printf ("sc %d %d %d\n", prefix[i], sc, scancode (prefix[i], sc));
	for (int vk = 0; vk < 256; vk++)
		if (bits (vk))
			printf ("bits %d %d\n", vk, bits (vk));
	for (int vk = 1; vk < 256; vk++)
		for (int mod = 0; mod < 256; mod++) {
			int c = character (vk, mod);
			if (c != -1)
				printf ("ch %d %d %d\n", vk, mod, c);
		}
	/* attributes, caps lock must not change anything */
	for (OS_TABLE *t = T->pVkToWcharTable; t->p; t++)
		for (OS_VK_TO_WCHARS *e = t->p; e->VirtualKey; e = (OS_VK_TO_WCHARS *) ((uint8_t *) e + t->cbSize))
			if (e->Attributes)
				printf ("attr %d %d\n", e->VirtualKey, e->Attributes);
	reverse ();
	name ("name", T->pKeyNames);
	name ("ext", T->pKeyNamesExt);
	printf ("end\n");
	return 0;
}
