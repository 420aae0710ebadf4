/* Two materialised list cells with an arbitrary next-graph stand for every list:
 * a traversal step only ever looks at the current cell, so an invariant that is
 * proved for arbitrary contents and links of the current and of one other
 * arbitrary cell holds for lists of any length (projection argument). */
static GList LA_, LB_;
#define CELL(x) ((x) == NULL || (x) == &LA_ || (x) == &LB_)
int seenA, seenB; GList *Ghead;
#define SEEN(x) ((x) == NULL || ((x) == &LA_ && seenA) || ((x) == &LB_ && seenB))
/* every cell that a visited cell links to is visited or is the current one */
#define COVER(l) ((SEEN(Ghead) || (l) == Ghead) && (!seenA || SEEN(LA_.next) || (l) == LA_.next) && (!seenB || SEEN(LB_.next) || (l) == LB_.next))
#define ALLSEEN (SEEN(Ghead) && (!seenA || SEEN(LA_.next)) && (!seenB || SEEN(LB_.next)))
/* the value is not changed, but now the back end knows which objects it may point to */
#define SAMECELL(l) ((l) = (l) == &LA_ ? &LA_ : (l) == &LB_ ? &LB_ : NULL)
#define VISIT(l) do { SAMECELL(l); if ((l) == &LA_) seenA = 1; if ((l) == &LB_) seenB = 1; } while (0)
static GList *vp_anycell(void) { unsigned char k; return k == 0 ? NULL : k == 1 ? &LA_ : &LB_; }
static void vp_list(void *da, void *db) { LA_.data = da; LB_.data = db; LA_.next = vp_anycell(); LB_.next = vp_anycell(); LA_.prev = LB_.prev = NULL; seenA = seenB = 0; Ghead = vp_anycell(); }
