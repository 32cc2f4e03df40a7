From afb34b73c93ff0f7db09691871652a4aff4aa8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 01/86] fix: keep recorded past-year SubForecast transactions
 intact when the year advances

---
 forecaster/forecast/subforecast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..bb628c9 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -170,7 +170,11 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (We assign a new dict because the old dict is stored by the
+        # `transactions` recorded_property; invoking `clear` will affect
+        # past-year records.)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 62875566a5ac22d064535808360eb19a66d5d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 02/86] fix: forget SubForecast transactions once undone so
 they are not reversed twice

---
 forecaster/forecast/subforecast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb628c9..f666b90 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -211,6 +211,10 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # These transactions have been reversed; don't reverse them again
+        # if this method is called again later:
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From 9eb9edc38f6fe4210c72f19fd652a1e77809e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 03/86] fix: let TransactionDict.keys() list keys that cannot
 be ordered

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index f666b90..fe97c7d 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -73,7 +73,8 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        # (Keys are accounts, dicts, or None, so they can't be sorted.)
+        return list(self.__iter__())  # Returns a list
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
-- 
2.43.0


From 2534e84b76ca4e3d9e35494b52253db18757e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 04/86] fix: forecast living expenses for years with no net
 income

---
 forecaster/forecast/living_expenses.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..c68cbd1 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,16 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income != 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # If there's no net income (e.g. because everyone has
+            # retired) then incur living expenses in equal shares:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From 5d189e9ab775b1b8e952949aab8b9a7075fe91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 05/86] fix: report payments to debts (not savings) as
 SavingForecast.debt_repayment

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From dc1a60616293e6a556535639b40c788006a0c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 06/86] fix: don't carry prior-year withholdings into
 WithdrawalForecast.tax_withheld

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..0558a93 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # No tax has been withheld yet in the new year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From 46f2badeaebe7c9bc46b4278904b417857bc4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 07/86] fix: cache high-precision values per object so they
 don't leak between objects

---
 forecaster/utility/precision.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..7f434cd 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # Cached values (for efficient calls to __get__) are stored on
+        # each object; this descriptor is shared by all objects of the
+        # class, so it can't store them. Set by __set_name__:
+        self.cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        self.cache_name = self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +132,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +149,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 9c19b5ded1c436cfbe09f102fc37eef7e5bcc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 08/86] fix: make Account.get return the transaction value

---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..6bec04e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -877,7 +877,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From 764f096a859e8dffbd687b99a14e1b18b714a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 09/86] fix: keep high-precision zero in Account transactions
 after the first year

---
 forecaster/accounts/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6bec04e..55a69d7 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -403,7 +403,8 @@ class Account(TaxSource):
         # (We assign a new defaultdict because the old dict is
         # stored by the `transactions` recorded_property; invoking
         # `clear` will affect past-year records.)
-        self._transactions = defaultdict(lambda: 0) # Money value
+        self._transactions = defaultdict(
+            lambda: self.precision_convert(0)) # Money value
 
     @property
     def max_outflow_limit(self):
-- 
2.43.0


From 7e08ade3310df7abb409e8551fca6bb6e57f6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 10/86] fix: count all linked accounts' transactions against
 next year's contribution room

---
 forecaster/canada/accounts/rrsp.py | 6 +++++-
 forecaster/canada/accounts/tfsa.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..c86aa03 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -214,7 +214,11 @@ class RRSP(RegisteredAccount):
                 self.inflation_adjust,
                 year + 1)
             # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # (Contribution room is shared by all linked accounts, so
+            # consider contributions to any of them.)
+            inflows = sum(
+                account.inflows() for account in self.max_inflow_link.group)
+            rollover = self.contribution_room - inflows
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..a996bde 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,12 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (Contribution room is shared by all linked accounts, so
+        # consider transactions for each of them.)
+        transactions = sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
+        rollover = self.contribution_room - transactions
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From e3ee125ec06bf3b59b5fe478e4b0325958c6577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 11/86] fix: exempt the minimum RRIF withdrawal from
 withholding tax

---
 forecaster/canada/accounts/rrsp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index c86aa03..c9d9be0 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,10 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # (Note that `min_outflow_limit` is negative.)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From 272b00b148d2ad8172aa43cc873404732eb68fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 12/86] fix: start accruing TFSA room in the year the owner
 becomes eligible

---
 forecaster/canada/accounts/tfsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index a996bde..5e5e07d 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -103,7 +103,7 @@ class TFSA(RegisteredAccount):
         This excludes any rollovers - it's just the statutory accrual.
         """
         # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        if self.owner.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From fa59cd59fa90a84e06749ff03465efc909c50cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 13/86] fix: base minimum RRIF withdrawals on the annuitant's
 age

---
 forecaster/canada/accounts/rrsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index c9d9be0..e316f5f 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -249,7 +249,7 @@ class RRSP(RegisteredAccount):
         # Minimum withdrawals are required the year after converting to
         # an RRIF. How it is calculated depends on the person's age.
         if self.rrif_conversion_year < self.this_year:
-            age = self.contributor.age(self.this_year)
+            age = self.owner.age(self.this_year)
             if age in rrif_withdrawal_min:
                 return (
                     self.precision_convert(rrif_withdrawal_min[age])
-- 
2.43.0


From 066bdfe9785831433893b50bb2350cb59a9b9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 14/86] fix: make LinkedLimitAccount outflow limit setters set
 the outflow limits

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From a302a7ef408aba6e61899b64aa71c8659f59450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 15/86] fix: don't net linked accounts' flows against each
 other or count them in this account's balance

---
 forecaster/accounts/linked_limit.py | 171 +++++++++++++++++-----------
 1 file changed, 102 insertions(+), 69 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..95de03f 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,16 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
-
-        If `transactions` is provided, any transactions for this account
-        in `group_transactions` are ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ Determines additional transactions for this account.
 
         Args:
             transactions (Union[dict[Number, Money], NoneType]): A
@@ -213,52 +203,56 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
+                values. Ignored if `transactions` is provided.
+
+        Returns:
+            Union[dict[Number, Money], NoneType]: A time-series of
+            transactions, or `None` if no transactions are provided for
+            this account by either argument.
+        """
+        if transactions is None and group_transactions is not None:
+            if self in group_transactions:
+                return group_transactions[self]
+        return transactions
+
+    def _linked_limit(self, link, limit, flows, group_transactions):
+        """ Reduces `limit` by other linked accounts' inflows/outflows.
+
+        Each account's inflows/outflows are determined separately. An
+        outflow from one account doesn't reduce the inflows to another
+        (even if they occur at the same time), and transactions of other
+        linked accounts don't affect this account's balance.
+
+        Args:
             link (AccountLink): An object defining a collection of
                 linked accounts.
+            limit (Money): The limit shared by the linked accounts.
+            flows (str): The name of the `Account` method that sums the
+                relevant transactions (i.e. `inflows` or `outflows`).
+            group_transactions
+                (Union[dict[Account, dict[Number, Money]], NoneType]):
+                A mapping of `Account` keys to `transactions`-like
+                values. Keys not linked (according to `link`) are
+                ignored.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Money: The portion of `limit` which isn't used up by other
+            linked accounts.
         """
-        # For convenience, use an empty iterable rather than `None`:
-        if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
         if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            return limit
+        for account in link.group - {self}:
+            # Consider transactions already recorded against the account
+            # and any additional transactions in `group_transactions`:
+            transactions = (
+                group_transactions.get(account)
+                if group_transactions is not None else None)
+            limit -= getattr(account, flows)(transactions)
+        return limit
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, *, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -282,14 +276,24 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Limit transactions to whatever portion of the shared limit
+        # isn't used up by linked accounts or existing transactions:
+        limit = self._linked_limit(
+            self.max_inflow_link,
+            self.max_inflow_limit - self.inflows(transactions),
+            'inflows', group_transactions)
+        if transaction_limit is not None:
+            limit = min(limit, transaction_limit)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, *, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -313,14 +317,24 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Limit transactions to whatever portion of the shared limit
+        # isn't used up by linked accounts or existing transactions:
+        limit = self._linked_limit(
+            self.max_outflow_link,
+            self.max_outflow_limit - self.outflows(transactions),
+            'outflows', group_transactions)
+        if transaction_limit is not None:
+            limit = max(limit, transaction_limit)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, *, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -344,14 +358,24 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Limit transactions to whatever portion of the shared limit
+        # isn't used up by linked accounts or existing transactions:
+        limit = self._linked_limit(
+            self.min_inflow_link,
+            self.min_inflow_limit - self.inflows(transactions),
+            'inflows', group_transactions)
+        if transaction_limit is not None:
+            limit = min(limit, transaction_limit)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, *, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -375,8 +399,17 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Limit transactions to whatever portion of the shared limit
+        # isn't used up by linked accounts or existing transactions:
+        limit = self._linked_limit(
+            self.min_outflow_link,
+            self.min_outflow_limit - self.outflows(transactions),
+            'outflows', group_transactions)
+        if transaction_limit is not None:
+            limit = max(limit, transaction_limit)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing=timing, transaction_limit=limit,
+            balance_limit=balance_limit, transactions=transactions,
+            **kwargs)
-- 
2.43.0


From c7d547dc35529b5dfda81c652a2f782f10b3b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 16/86] fix: update capital gains when transactions are removed
 from a TaxableAccount

---
 forecaster/canada/accounts/taxable_account.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..83e5792 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -111,6 +111,19 @@ class TaxableAccount(Account):
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
+        self._invalidate_capital_gain()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._invalidate_capital_gain()
+
+    def clear(self):
+        """ Clears all of the account's transactions. """
+        super().clear()
+        self._invalidate_capital_gain()
+
+    def _invalidate_capital_gain(self):
+        """ Clears values that are affected by changes to transactions. """
         # Invalidate the cache for acb and capital gains, since
         # transactions will affect it.
         # pylint: disable=no-member
-- 
2.43.0


From feac8b9c381ccd4c8cc778e941ca4109086c4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 17/86] fix: don't overwrite (or depend on) manual inputs when
 tracking TaxableAccount acb

---
 forecaster/canada/accounts/taxable_account.py | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 83e5792..8eab569 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -80,6 +80,12 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        capital_gain, acb = self._realize_gains()
+        self._record_next_acb(acb)
+        return capital_gain
+
+    def _realize_gains(self):
+        """ Capital gains for this year and the acb for next year. """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -105,9 +111,21 @@ class TaxableAccount(Account):
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
 
-        # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
-        return capital_gain
+        return capital_gain, acb
+
+    def _record_next_acb(self, acb):
+        """ Stores the acb for next year, unless it's a manual input. """
+        if self.this_year + 1 not in self.inputs.get('acb', {}):
+            self._acb_history[self.this_year + 1] = acb
+
+    def next_year(self):
+        """ Advances to the next year. """
+        # Ensure that we know next year's acb. (It won't have been
+        # determined yet if `capital_gain` is a manual input.)
+        if self.this_year + 1 not in self._acb_history:
+            _, acb = self._realize_gains()
+            self._record_next_acb(acb)
+        super().next_year()
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
@@ -129,8 +147,11 @@ class TaxableAccount(Account):
         # pylint: disable=no-member
         # Pylint gets confused by attributes added via metaclass.
         # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+        # (But don't clear any values provided by the user.)
+        if self.this_year not in self.inputs.get('capital_gain', {}):
+            self._capital_gain_history.pop(self.this_year, None)
+        if self.this_year + 1 not in self.inputs.get('acb', {}):
+            self._acb_history.pop(self.this_year + 1, None)
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From 3618593334af79a5eabc47a32aeca79543261d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 18/86] fix: apply manually-input contribution room to the
 shared limit regardless of account order

---
 forecaster/canada/accounts/registered_account.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..cd37e80 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -133,12 +133,15 @@ class RegisteredAccount(LinkedLimitAccount):
         # per year. We do this in the first account to be called.
         if first_account:
             # If the contribution room for next year is already known
-            # (e.g. via an `input` dict), use that:
+            # (e.g. via an `input` dict of any linked account), use that:
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass
             next_year = self.this_year + 1
-            if next_year in self.contribution_room_history:
-                contribution_room = self.contribution_room_history[next_year]
+            for account in self.max_inflow_link.group:
+                if next_year in account.contribution_room_history:
+                    contribution_room = (
+                        account.contribution_room_history[next_year])
+                    break
             else:
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
@@ -159,8 +162,10 @@ class RegisteredAccount(LinkedLimitAccount):
 
         # Now assign the contribution room we determined earlier to
         # the linked data store:
+        # (Assign to `max_inflow_limit` directly; if `contribution_room`
+        # is a manual input then its setter won't store this value.)
         if first_account:
-            self.contribution_room = contribution_room
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From fe0e35d77a765df2f5326fb469b2ddaa066bc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 19/86] fix: infer initial TFSA room when only future
 contribution room is input

---
 forecaster/canada/accounts/tfsa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 5e5e07d..648248a 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,13 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From c879d95d57b6ff7e83c65863ace68b71dab790ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 20/86] fix: inflation-adjust tax brackets (not rates) when
 accum is requested first

---
 forecaster/tax.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..6caa542 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -216,9 +216,8 @@ class Tax(HighPrecisionOptional):
         # add_brackets() does this for us.
         if year not in self._accum:
             # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            # (This adds the brackets if they aren't already present.)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 227972bf6a66c069df839d4d1b0cd0a679bcd9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 21/86] fix: don't count a person's own deductions and credits
 twice

---
 forecaster/tax.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 6caa542..68a8c16 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -402,14 +402,10 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # NOTE: `self.deduction` and `self.credit` include the person's
+        # own deductions and credits.
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 0f6aa9ebb1f523ae623b9c8720e68762986e660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 22/86] fix: accept any iterable of people in Tax.tax_people

---
 forecaster/tax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 68a8c16..3cab20c 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -431,6 +431,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Allow for any iterable (we need set operations below):
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
-- 
2.43.0


From 050fb090e6f2d49ea7b29b0e08244875a22724ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 23/86] fix: don't freeze a person's deductions and credits
 when they are first read

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..6421728 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -393,13 +393,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From 4903767a418f6e08facf4ae11c395d38a6145bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 24/86] fix: base pension and spousal credits on the taxation
 year being assessed

---
 forecaster/canada/tax.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..248f16f 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,8 +74,10 @@ class TaxCanadaJurisdiction(Tax):
             Money: The amount of the credit claimable by person in year.
         """
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
-            if isinstance(account, RRSP)))
+            value for account in person.accounts
+            if isinstance(account, RRSP)
+            for value in account.transactions_history[year].values()
+            if value < 0))
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
@@ -123,14 +125,14 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year] - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year] - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 68798516f9bdb93b0a9057e3901d09afb5386ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 25/86] fix: don't mutate deductions and credits passed to
 TaxCanada

---
 forecaster/canada/tax.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 248f16f..3ae808e 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -225,14 +225,9 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # Users can pass in `deductions` and `credits` dicts (as allowed
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
-        if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
-        else:
-            deductions = {}
-        if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
-        else:
-            credits_ = {}
+        # (Copy any dicts passed in by calling code; don't mutate them.)
+        deductions = dict(kwargs.get("deductions") or {})
+        credits_ = dict(kwargs.get("credits_") or {})
 
         # Override any values in `deductions` and `credis` with
         # subclass-specific kwargs, if provided:
-- 
2.43.0


From 085d1c4ca58829db6cbe481ad97016e1c9e26f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 26/86] fix: let TaxMulti assess deductions and taxes for
 individual taxpayers

---
 forecaster/tax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 3cab20c..381d01c 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -699,7 +699,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
@@ -731,8 +731,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -744,8 +744,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From 7c44ed0990438e9e23f7880c91c0a7d90d0762e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 27/86] fix: combine tax brackets of jurisdictions whose
 brackets differ

---
 forecaster/tax.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 381d01c..c938cbc 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -666,14 +666,9 @@ class TaxMulti(object):
 
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
-        # If `bracket` is provided, we return a scalar:
-        if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
-        # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        # (We iterate over this repeatedly, so don't use a generator)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
@@ -682,16 +677,36 @@ class TaxMulti(object):
         # jurisdiction without exceeding `key`)
         for key in sorted(bracket_keys):
             combined_brackets[key] = sum(
-                bracket[
-                    max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                jurisdiction[
+                    max(inner_key
+                        for inner_key in jurisdiction if inner_key <= key)]
+                for jurisdiction in brackets
+                if min(jurisdiction) <= key)
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return combined_brackets[bracket]
+        # Otherwise we return a dict.
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # Brackets might not align between jurisdictions, so build this
+        # based on the combined brackets (in ascending order):
+        combined_accum = {}
+        prev, rate = None, None
+        for key, next_rate in self.tax_brackets(year).items():
+            if prev is None:
+                # Start with the same type as other values:
+                combined_accum[key] = (key - key) * next_rate
+            else:
+                combined_accum[key] = (
+                    combined_accum[prev] + (key - prev) * rate)
+            prev, rate = key, next_rate
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return combined_accum[bracket]
+        # Otherwise we return a dict.
+        return combined_accum
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From 52e702c4dedbeec2720b8c25fa9cf79211abe6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 28/86] fix: ignore accounts that don't exist yet when
 assessing pension income

---
 forecaster/canada/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 3ae808e..f2684e6 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -76,7 +76,7 @@ class TaxCanadaJurisdiction(Tax):
         pension_income = abs(sum(
             value for account in person.accounts
             if isinstance(account, RRSP)
-            for value in account.transactions_history[year].values()
+            for value in account.transactions_history.get(year, {}).values()
             if value < 0))
             # NOTE: Other qualified pension income sources can be
             # added here
-- 
2.43.0


From b4f05e3b24335c3fab0dd798d5a60d718f734be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 29/86] fix: keep a ValueReader's values if a read fails

---
 forecaster/value_reader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..ce347f9 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -237,15 +237,12 @@ class ValueReader(HighPrecisionOptional):
         Raises:
             FileNotFoundError: No such file or directory.
         """
-        # Clear all existing JSON attributes from this object:
-        self.values.clear()
-
         # If this is a bare filename, assume it's in /data
         filename = resolve_path(filename)
 
-        # Read in JSON values to the `values` dict:
+        # Read in JSON values:
         with open(filename, "rt", encoding="utf-8") as file:
-            self.values = json.load(
+            values = json.load(
                 file,
                 cls=self.decoder_cls, # Custom JSONDecoder
                 parse_float=self._parse_float, # High-precision support
@@ -253,11 +250,15 @@ class ValueReader(HighPrecisionOptional):
 
         # Convert str-encoded numbers to numeric types:
         if numeric_convert:
-            self.values = self._numeric_convert(self.values)
+            values = self._numeric_convert(values)
 
-        if not isinstance(self.values, dict):
+        if not isinstance(values, dict):
             raise TypeError('JSON file must provide dict of key: value pairs')
 
+        # Replace all existing JSON attributes of this object. (Don't do
+        # this until we know that the new values were read successfully.)
+        self.values = values
+
     def _parse_float(self, val):
         """ Parses float values (except infinite/NaN).
 
-- 
2.43.0


From 82f8449ccf0ef138660b20df4a58730094c7f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 30/86] fix: write settings files atomically so a failed write
 keeps the existing file

---
 forecaster/value_reader.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index ce347f9..4c82330 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+import shutil
 from forecaster.utility.precision import HighPrecisionOptional
 
 INFINITY = float('inf')
@@ -382,6 +383,26 @@ class ValueReader(HighPrecisionOptional):
             encoder_args['high_precision_serialize'] = (
                 self.high_precision_serialize)
 
-        # Write the serialized values to file:
-        with open(filename, "w", encoding="utf-8") as file:
-            json.dump(vals, file, cls=cls, **encoder_args)
+        # Serialize the values before touching any files (in case this
+        # raises an error)
+        text = json.dumps(vals, cls=cls, **encoder_args)
+
+        # Write the serialized values to a temporary file and then move
+        # it into place, so that any existing file isn't lost if we're
+        # interrupted:
+        filename = os.path.realpath(filename)
+        temp_filename = "{}.{}.tmp".format(filename, os.getpid())
+        try:
+            with open(temp_filename, "w", encoding="utf-8") as file:
+                file.write(text)
+                file.flush()
+                os.fsync(file.fileno())
+            if os.path.exists(filename):
+                shutil.copymode(filename, temp_filename)
+            os.replace(temp_filename, filename)
+        except BaseException:
+            try:
+                os.remove(temp_filename)
+            except OSError:
+                pass
+            raise
-- 
2.43.0


From ad9dee8dbb3ef7766a38fc028f8f137d151b632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 31/86] fix: allow ValueReader attributes to be deleted

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 4c82330..015afd4 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -59,8 +59,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From e42696dba77e1cba1f03711d69dca38b8bc1d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 32/86] fix: read large and high-precision numbers without
 rounding them

---
 forecaster/value_reader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 015afd4..4e09c72 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -337,14 +337,23 @@ class ValueReader(HighPrecisionOptional):
 
         # Now we know `vals` is a numeric-convertible str. Convert it:
         # Prefer int representation if possible:
+        # (Convert directly from str so that large values aren't rounded)
+        try:
+            return int(vals) #@IgnoreException
+        except ValueError:
+            pass
+        # Use high-precision numeric type if supported:
+        if self.high_precision is not None:
+            value = self._parse_float(vals)
+            # `float_val % 1` is `NaN` for infinite or NaN values.
+            if float_val % 1 == 0 and int(value) == value:
+                return int(value)
+            return value
         if float_val % 1 == 0:
             # `float_val % 1` is `NaN` for infinite or NaN values,
             # and is a non-zero number for any floating-point value.
             # Thus, if this test passes, we have an integer value.
             return int(float_val)
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
         # Otherwise, use float:
         return float_val
 
-- 
2.43.0


From d52d9adcdad355c4605795bb4247f5af4bb37fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 33/86] fix: write the values of another ValueReader

---
 forecaster/value_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 4e09c72..1f08853 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -369,6 +369,8 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 4f55ca30e377a658ce8ac9da6d5476728029e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 34/86] fix: write dicts with high-precision keys

---
 forecaster/value_reader.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1f08853..297b0a9 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -133,6 +133,34 @@ class HighPrecisionJSONEncoder(json.JSONEncoder):
         else:
             super().default(o)
 
+    def iterencode(self, o, _one_shot=False):
+        """ Encodes `o`, including any high-precision keys of dicts. """
+        return super().iterencode(self._convert_keys(o), _one_shot)
+
+    def encode(self, o):
+        """ Encodes `o`, including any high-precision keys of dicts. """
+        return super().encode(self._convert_keys(o))
+
+    def _convert_keys(self, vals):
+        """ Converts high-precision keys of dicts to str. """
+        # `JSONEncoder` raises an error for keys with unfamiliar types
+        # (it doesn't call `default` for those).
+        if self.high_precision_type is None:
+            return vals
+        if isinstance(vals, (list, tuple)):
+            return [self._convert_keys(val) for val in vals]
+        if not isinstance(vals, dict):
+            return vals
+        vals = {key: self._convert_keys(val) for (key, val) in vals.items()}
+        if any(isinstance(key, self.high_precision_type) for key in vals):
+            # Convert all of the keys so that they can be sorted:
+            return {
+                str(self.high_precision_serialize(key))
+                if isinstance(key, self.high_precision_type)
+                else str(key): val
+                for (key, val) in vals.items()}
+        return vals
+
 class ValueReader(HighPrecisionOptional):
     """ Reads values from JSON-encoded files.
 
-- 
2.43.0


From e18bf2f1e7f86299048637944aa738ab1561449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 35/86] fix: assign minimum outflows before filling the rest of
 a shortfall

---
 forecaster/strategy/transaction/base.py  | 18 ++++++++++++++----
 forecaster/strategy/transaction/graph.py |  6 ++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..332532c 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -249,7 +249,13 @@ class TransactionTraversal(HighPrecisionOptional):
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
             # Limit min. outflows based on what's in the account, not
             # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            # (This needs to be finite, since capacities are divided
+            # between children)
+            min_total = sum(
+                sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values())
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -1160,7 +1166,9 @@ class TransactionTraversal(HighPrecisionOptional):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
         # capacities):
-        capacity = transaction_limit / self.precision
+        # (Outflows are negative, but flows never are, so use `abs` to
+        # ensure that memoized flows _reduce_ capacity)
+        capacity = abs(transaction_limit / self.precision)
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1171,7 +1179,8 @@ class TransactionTraversal(HighPrecisionOptional):
             # `group_node` (which accounts for all flows through all
             # of the linked nodes of the group)
             # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(group_node, flows=self.memo), 0)
             _add_edge(
                 self.graph, node, group_node,
                 capacity=capacity, limit=capacity)
@@ -1180,7 +1189,8 @@ class TransactionTraversal(HighPrecisionOptional):
             node = group_node
         else:
             # Reduce capacity based on any memoized flows through `node`
-            capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..6306387 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -148,8 +148,10 @@ def _add_edge(
         capacity = abs(capacity)
 
         # Reduce capacity by any previously-allocated flows over this
-        # edge:
-        capacity -= _flows_through(from_node, to_node, flows=memo)
+        # edge (without going negative if those flows exceed `capacity`,
+        # e.g. where minimum outflows exceed the total shortfall):
+        capacity = max(
+            capacity - _flows_through(from_node, to_node, flows=memo), 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From b8ddcee4476e14b7b47df2145de5c2b7e61b577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 36/86] fix: return no transactions for a priority tree with no
 accounts

---
 forecaster/strategy/transaction/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 332532c..5b89ace 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -230,6 +230,10 @@ class TransactionTraversal(HighPrecisionOptional):
         # We provide a kwargs argument so that this class can be used
         # wherever `TransactionStrategy` or similar classes are used.
 
+        # There's nothing to assign if there are no accounts:
+        if not _get_accounts(self._priority_tree):
+            return {}
+
         # By default, use up all money in `available`, unless we're
         # specifically told to use less:
         if total is None:
-- 
2.43.0


From 82137d4fc4b55fe0835032f9057bbb9ab7d097df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 37/86] fix: keep low-interest debts in order after one of them
 is repaid

---
 forecaster/strategy/transaction/strategy.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..a015b00 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -306,20 +306,25 @@ class TransactionStrategy(Strategy):
         """ Returns a dict of account: transaction pairs. """
         # Debts get special treatment, so separate them out here:
         low_interest_debts, high_interest_debts = self.divide_debts(accounts)
-        # Get priority trees for each debt. These will be inserted into
-        # the final priority tree differently (in-place replacement for
-        # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
+        # Get the priority tree for high-interest debts. It will be
+        # prepended to the final priority tree. (Low-interest debts are
+        # dealt with differently, by in-place replacement, below.)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
         # Group together accounts that share weights (and map them to
         # those weights for convenience):
+        # (Exclude debts which have already been repaid)
         groups = self._weight_account_groups(
-            set(accounts) - high_interest_debts)
+            account for account in accounts
+            if account not in high_interest_debts and (
+                account in low_interest_debts
+                or not isinstance(account, Debt)))
 
         # Ensure that low-interest debts are properly ordered, rather
         # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        subtrees = {
+            group: self.debt_priority(group)
+            for group in groups if group <= low_interest_debts}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From be294b1192da91fd948123526854e6fa58994b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 38/86] fix: set children when copying a TransactionNode

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From 3bac390f85691c5e9092be083e37578c6e58a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 39/86] fix: accept custom methods in TransactionTraversal

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 5b89ace..4abe7ed 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From 0a8a2c5a506f460a6a04620a5dd80b226b62e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 40/86] fix: build allocation strategies via
 Forecaster.build_allocation_strategy

---
 forecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..6862c7a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -491,5 +491,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
-            _special_builder=False, **kwargs)
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy, _special_builder=False, **kwargs)
-- 
2.43.0


From 2fdaaf8fad7be2c14a30bad8c2bc85fe4b146831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 41/86] fix: don't share default parameter values between
 Forecasters

---
 forecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 6862c7a..f1dcb30 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -144,7 +144,7 @@ class Forecaster(HighPrecisionOptional):
         """ Inits an instance of `Forecaster`. """
         # Set up instance:
         super().__init__(high_precision=high_precision)
-        self.default_values = copy(DEFAULTVALUES)
+        self.default_values = deepcopy(DEFAULTVALUES)
         self.default_types = copy(DEFAULTTYPES)
         self.default_builders = copy(DEFAULTBUILDERS)
         # Store args as attributes:
-- 
2.43.0


From 4e7f46e1d45f32db22887fb82bd7b49858eb331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 42/86] fix: respect assign_min when assigning transactions

---
 forecaster/strategy/debt_payment/base.py | 2 +-
 forecaster/strategy/transaction/base.py  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/debt_payment/base.py b/forecaster/strategy/debt_payment/base.py
index 261c3b4..d784e0e 100644
--- a/forecaster/strategy/debt_payment/base.py
+++ b/forecaster/strategy/debt_payment/base.py
@@ -60,7 +60,7 @@ class DebtPaymentStrategy(Strategy, HighPrecisionOptional):
         """
         strategy = TransactionTraversal(
             priority=sorted_debts, high_precision=self.high_precision)
-        result = strategy(available, assign_min_first=assign_minimums)
+        result = strategy(available, assign_min=assign_minimums)
         return result
 
     @strategy_method(SNOWBALL_KEY)
diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 4abe7ed..fbf5618 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -271,9 +271,11 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if desired):
+        min_transactions = {}
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From 2426c53e237df0c122bd8a99465758d0155fe18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 43/86] fix: respect nodes' outflow limits when there are
 minimum outflows

---
 forecaster/strategy/transaction/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index fbf5618..f5efc3c 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -616,11 +616,13 @@ class TransactionTraversal(HighPrecisionOptional):
                 limit_value = limit_value.amount
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
-                # rounding issues:
-                limit_value /= self.precision
+                # rounding issues. (Flows are never negative, so limits
+                # on outflows need to be flipped to positive sign):
+                limit_value = abs(limit_value) / self.precision
                 # Reduce `limit_value` based on any memoized flows
                 # through `node`:
-                limit_value -= _flows_through(node, flows=self.memo)
+                limit_value = max(
+                    limit_value - _flows_through(node, flows=self.memo), 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
-- 
2.43.0


From 8edafd3467cb3714da776da2d28a7a0a55440d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 44/86] fix: share outflow limits between linked accounts
 regardless of their order

---
 forecaster/strategy/transaction/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index f5efc3c..d388b27 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1195,6 +1195,11 @@ class TransactionTraversal(HighPrecisionOptional):
             # We're done with the original account node; all further
             # edges will be from the group node.
             node = group_node
+            # If other accounts of the group have already been added, use
+            # the largest capacity (e.g. accounts which share a limit on
+            # outflows might have different balances):
+            if self.sink is not None and self.graph.has_edge(node, self.sink):
+                capacity = max(capacity, self.graph[node][self.sink]["limit"])
         else:
             # Reduce capacity based on any memoized flows through `node`
             capacity = max(
-- 
2.43.0


From 227fd5e1b682433f6e1c40c2e828aeef2b27e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 45/86] fix: grow last year's balance at last year's rate

---
 forecaster/accounts/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 55a69d7..fed676e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,14 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
-        # First, grow last year's initial balance based on the rate:
+        # First, grow last year's initial balance based on last year's
+        # rate (i.e. the rate that last year's `returns` are based on):
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self._rate_history[self.this_year - 1]
         balance = value_at_time(
-            # pylint: disable=no-member
-            # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +245,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From c0a09ff9f7b1cb1317fee8676a648d1924047746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 46/86] fix: use high-precision timings when a frequency is
 given as a string

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From 5f26c6d603c2449ecb98ffa5632ef648fefbaf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 47/86] fix: use high-precision tax refund and payment timings

---
 forecaster/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index c938cbc..2ce06ce 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -280,7 +280,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -290,7 +291,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From 972ab3135ecf0f47cfecb04894908f454fddc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 48/86] fix: keep high precision in Canadian tax jurisdictions

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index f2684e6..60f8e11 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From 34840060b467cc21a447ebffd172d789711b9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 49/86] fix: convert numeric timings to high precision

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index ea25303..d7f4896 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -415,6 +415,8 @@ def when_conv(when, *, high_precision=None):
             when = one
         elif when == 'start':
             when = zero
+    elif high_precision is not None:
+        when = high_precision(when)
 
     if when > one or when < zero:
         raise ValueError("When: 'when' must be in [0,1]")
-- 
2.43.0


From f7368eb831ce2591a11aa91b422e610f5a9b0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 50/86] fix: find the time to a high-precision balance

---
 forecaster/accounts/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..20dcf70 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -116,11 +116,13 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     if nper is None:
         # math.exp(rate * t) throws a warning, since there's an
         # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        timing = high_precision(
+            math.log(accum, high_precision(math.e))) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        timing = high_precision(
+            math.log(accum, high_precision(1) + rate / nper)) / nper
 
     return timing
 
-- 
2.43.0


From 3f68f6112e1aad11bb1c4ec3b46fabaa54596634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 51/86] fix: repay high-interest debts when there are no other
 accounts

---
 forecaster/strategy/transaction/strategy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index a015b00..f840d9a 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -335,7 +335,11 @@ class TransactionStrategy(Strategy):
             # Prepend the high-interest debts, so that they are repaid
             # before any discretionary money is allocated to other
             # accounts (i.e. money other than minimums):
-            priority = [high_interest_priority, priority]
+            if priority:
+                priority = [high_interest_priority, priority]
+            else:
+                # There's nothing to pay into apart from these debts.
+                priority = high_interest_priority
 
         # Traverse the tree and return the results:
         traverse = TransactionTraversal(
-- 
2.43.0


From e8d50232707c3331dbaa6ef1da3ff205b443a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 52/86] fix: don't report last year's transactions before this
 year's are made

---
 forecaster/forecast/saving.py      | 11 +++++++++++
 forecaster/forecast/subforecast.py |  5 +++++
 forecaster/forecast/withdrawal.py  |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 101e0db..cd094a4 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -67,6 +67,17 @@ class SavingForecast(SubForecast):
         # living expenses. (See former `ReductionForecast` code for
         # a related implementation of this.)
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been allocated to accounts yet this year:
+        self.account_transactions = {}
+
+    def undo_transactions(self):
+        """ Reverses all transactions caused by this subforecast. """
+        super().undo_transactions()
+        self.account_transactions = {}
+
     @recorded_property_cached
     def debt_repayment(self):
         """ Total debt repaid for the year from savings. """
diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index fe97c7d..ba1d7a4 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -177,6 +177,7 @@ class SubForecast(Ledger):
         self._transactions = TransactionDict(
             lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
+        self.total_available = 0 # Money value
 
     def __call__(self, available):
         """ Records transactions against accounts; mutates `available`. """
@@ -186,6 +187,9 @@ class SubForecast(Ledger):
             self.undo_transactions()
         # Keep track of the fact that this method has been called again:
         self._call_invoked = True
+        # Values may have been cached before this method was called.
+        # They don't reflect what follows, so re-calculate them:
+        self.clear_cache()
 
         # It's often useful to know (in scalar terms) how much money
         # is available for use by the Forecast in the year. Track
@@ -219,6 +223,7 @@ class SubForecast(Ledger):
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
+        self.total_available = 0 # Money value
 
         # If we've cached any recorded_property_cached values, invalidate
         # the cache so they can be re-calculated based on the new input:
diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 0558a93..95ece7d 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -128,12 +128,14 @@ class WithdrawalForecast(SubForecast):
         super().next_year()
         # No tax has been withheld yet in the new year:
         self.tax_withheld = self.precision_convert(0) # Money value
+        self.account_transactions = {}
 
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
         # Reset tax_withheld:
         self.tax_withheld = self.precision_convert(0) # Money value
+        self.account_transactions = {}
 
     @recorded_property_cached
     def gross_withdrawals(self):
-- 
2.43.0


From 638955c139ec47bc6c4917179e89164f9412d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 53/86] fix: incur living expenses in chronological order

---
 forecaster/forecast/living_expenses.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index c68cbd1..f75f2dc 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -2,6 +2,8 @@
 
 from forecaster.ledger import recorded_property_cached
 from forecaster.forecast.subforecast import SubForecast
+from forecaster.utility import (
+    Timing, add_transactions, transactions_from_timing)
 
 class LivingExpensesForecast(SubForecast):
     """ A forecast of each year's living expenses.
@@ -59,11 +61,17 @@ class LivingExpensesForecast(SubForecast):
             income_weights = {
                 person: self.precision_convert(1) / len(self.people)
                 for person in self.people}
+        # Each expense may be shifted to a time when there's cash for it,
+        # which depends on the expenses already incurred. So incur them
+        # in chronological order, whatever order `people` is in:
+        weights = {}
         for person in self.people:
-            self.add_transaction(
-                self.living_expenses * income_weights[person],
-                timing=person.payment_timing,
-                from_account=available, to_account=None)
+            add_transactions(weights, transactions_from_timing(
+                person.payment_timing, income_weights[person]))
+        self.add_transaction(
+            self.living_expenses,
+            timing=Timing({when: weights[when] for when in sorted(weights)}),
+            from_account=available, to_account=None)
 
     @recorded_property_cached
     def living_expenses(self):
-- 
2.43.0


From 8195ae0c9386e3b09326bf9caa077ee05407db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 54/86] fix: don't shift transactions because of rounding
 errors

---
 forecaster/forecast/subforecast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index ba1d7a4..355291d 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -4,7 +4,7 @@ from collections import defaultdict
 from collections.abc import Hashable
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
-from forecaster.utility import Timing
+from forecaster.utility import EPSILON, Timing
 
 class TransactionDict(defaultdict):
     """ A defaultdict that accepts unhashable keys.
@@ -408,10 +408,11 @@ class SubForecast(Ledger):
 
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
-        # balance.
+        # balance. (Rounding errors don't matter here. They mustn't
+        # shift a transaction which uses up all of the money.)
         eligible_times = (
             t for t in accum if all(
-                accum[r] >= value for r in accum if r >= t))
+                accum[r] - value >= -EPSILON for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
-- 
2.43.0


From 39bf7816b68cb6a938ef8432b29d33bb0bf4a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 55/86] fix: respect weights when minimums exceed an account's
 share

---
 forecaster/strategy/transaction/base.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index d388b27..6776270 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -770,9 +770,15 @@ class TransactionTraversal(HighPrecisionOptional):
         # for that by increasing `capacity` here and decrementing that
         # flow from the child's proportionate capacity later on:
         outbound_node = _get_outbound_node(node, self.outbound_nodes)
-        flows = _flows_through(
-            outbound_node, flows=self.memo, children=children)
-        capacity += flows
+        # (Some of those flows may have been routed via an overflow node)
+        overflow_node = _get_overflow_node(
+            node, self.overflow_nodes, outbound_node=outbound_node)
+        flows = {
+            child: _flows_through(outbound_node, child, flows=self.memo)
+                   + _flows_through(overflow_node, child, flows=self.memo)
+            for child in children}
+        total_flows = sum(flows.values())
+        capacity += total_flows
 
         # Generate a proportionate weighting for each child:
         totals = {}
@@ -781,7 +787,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # proportionate to its weight in `children`:
             child_total = capacity * weight / normalization
             # Reduce this capacity to account for any memoized flows:
-            child_total -= _flows_through(outbound_node, child, flows=self.memo)
+            child_total -= flows[child]
             # Save this allocation:
             totals[child] = child_total
 
@@ -794,11 +800,8 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
-            capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
+            # Capacity should be restored to its original value:
+            capacity -= total_flows
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 1ad2fa1506121c74c3e6bc10c943edfa23bdae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 56/86] fix: keep balancing saturated accounts despite rounding
 errors

---
 forecaster/strategy/transaction/graph.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 6306387..d103681 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -450,13 +450,13 @@ def _unrestrict_overflow(
 def _swap_saturated(
         saturated, non_saturated, node, children, graph, flows,
         outbound_nodes=None):
-    """ Moves nodes with differing flows/capacity to `non_saturated`.
+    """ Moves nodes with reduced capacity to `non_saturated`.
 
-    Any nodes in `saturated` which have inbound flows from `node`
-    that are different from the flows in `flows` are moved to
-    `non_saturated`. The implication of such a mismatch is that
-    such nodes now receive more or less flows than their 0-weight
-    capacity, which means they are not saturated.
+    Any nodes in `saturated` which have capacity for inbound flows from
+    `node` that is less than the flows in `flows` (beyond any rounding
+    errors) are moved to `non_saturated`. The implication of such a
+    mismatch is that capacity for such nodes has been shifted to other
+    nodes, which means they are not saturated.
 
     `saturated` and `non_saturated` are mutated by this method.
 
@@ -487,7 +487,10 @@ def _swap_saturated(
         if child in saturated:
             new_capacity = graph[outbound_node][child][CAPACITY_KEY]
             old_capacity = flows[outbound_node][child]
-            if new_capacity != old_capacity:
+            # Capacity is rounded down for each child, so differences of
+            # a few units are merely rounding errors. (Capacity that has
+            # _increased_ can't be limiting flows to the child.)
+            if new_capacity < old_capacity - len(children):
                 saturated.remove(child)
                 non_saturated.add(child)
 
-- 
2.43.0


From 71566a33e9a054349ebd3d054fad20a3673fdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 57/86] fix: lift restrictions on overflows after balancing a
 subset of accounts

---
 forecaster/strategy/transaction/base.py  | 4 +++-
 forecaster/strategy/transaction/graph.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 6776270..0c3fb28 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1036,7 +1036,9 @@ class TransactionTraversal(HighPrecisionOptional):
                 outbound_nodes=self.outbound_nodes)
             self._balance_flows(node, children=children, **kwargs)
             # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+            _unrestrict_overflow(
+                self.graph, node, self.overflow_nodes,
+                outbound_nodes=self.outbound_nodes)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index d103681..e8e4c4f 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -441,8 +441,10 @@ def _unrestrict_overflow(
         return
 
     # Restore plenty of capacity to each edge from `overflow_node` to
-    # each child:
-    capacity = _outbound_capacity(graph, outbound_node, weight=0)
+    # each child (i.e. at least as much as can reach `overflow_node`):
+    capacity = max(
+        _outbound_capacity(graph, outbound_node, weight=0),
+        _inbound_capacity(graph, overflow_node))
     for child in node.children:
         edge_data = {CAPACITY_KEY: capacity}
         graph.add_edge(overflow_node, child, **edge_data)
-- 
2.43.0


From 854f2c62136fc3d09d0ccf233e6f0b25f42d79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 58/86] fix: keep priorities among nested groups of accounts

---
 forecaster/strategy/transaction/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 0c3fb28..ac5b9b3 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1078,7 +1078,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
             # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From 44b81e7609b34eb7bb2fd0a64902a26244de2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 59/86] fix: withdraw from accounts according to the withdrawal
 strategy

---
 forecaster/forecast/saving.py     | 5 +++++
 forecaster/forecast/withdrawal.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index cd094a4..6f75836 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -49,6 +49,11 @@ class SavingForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
+        # There's nothing to save if there's a shortfall. (Money isn't
+        # withdrawn from savings here; that's `WithdrawalForecast`'s job)
+        if self.total_available <= 0:
+            return
+
         accounts = set(self.retirement_accounts).union(self.debt_accounts)
         self.account_transactions = self.transaction_strategy(
             available, accounts=accounts)
diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 95ece7d..09f5149 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -57,6 +57,11 @@ class WithdrawalForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
+        # There's nothing to withdraw unless there's a shortfall. (Money
+        # isn't added to savings here; that's `SavingForecast`'s job)
+        if self.total_available >= 0:
+            return
+
         self.account_transactions = self.transaction_strategy(
             available, accounts=self.accounts)
 
-- 
2.43.0


From 0c2cf37c6ba825874ab3439afe8df49cf7e35c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 60/86] fix: take tax withheld from withdrawals out of
 available cash

---
 forecaster/forecast/withdrawal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 09f5149..8ca7442 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -112,8 +112,12 @@ class WithdrawalForecast(SubForecast):
         # an increase, but this code works for decreases too) then
         # record a transaction out of the account:
         if account.tax_withheld != old_tax_withheld:
-            # Find the change in tax withholdings for the account
-            new_tax_withheld = account.tax_withheld - old_tax_withheld
+            # Find the change in tax withholdings for the account.
+            # Accounts generally provide positive-valued `tax_withheld`,
+            # but it might instead have the sign of the withdrawals.
+            # Either way, withholding more is an outflow (negative):
+            new_tax_withheld = (
+                abs(old_tax_withheld) - abs(account.tax_withheld))
             # Assume they're withheld with the same timing and
             # weighting as the withdrawals themselves:
             transactions = transactions_from_timing(
-- 
2.43.0


From f3780a488cedfa3306cb4fd0456dcead1b366ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 61/86] fix: keep a tax year's brackets and accums together if
 interrupted

---
 forecaster/tax.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 2ce06ce..2a99c2d 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -314,10 +314,12 @@ class Tax(HighPrecisionOptional):
         Also generates an `accum` dict based on the tax brackets.
         """
         year = int(year)
-        self._tax_brackets[year] = brackets
-
+        # Add accums first: the year's brackets being there implies that
+        # its accums are too (even if this method is interrupted).
         self.add_accum(brackets, year)
 
+        self._tax_brackets[year] = brackets
+
     def add_accum(self, brackets, year):
         """ Generates an accum dict for the given brackets and year. """
         # For each bracket, the new accumulation is whatever the accum
@@ -326,13 +328,14 @@ class Tax(HighPrecisionOptional):
         # marginal rate of that bracket applied to the full taxable
         # income within its range.
         prev = min(brackets)  # We need to look at 2 brackets at a time
-        self._accum[year] = {prev: self.precision_convert(0)}  # Accum for lowest bracket
+        accum = {prev: self.precision_convert(0)}  # Accum for lowest bracket
         iterator = sorted(brackets.keys())  # Look at brackets in order
         iterator.remove(prev)  # Lowest bracket is already accounted for.
         for bracket in iterator:
-            self._accum[year][bracket] = \
-                (bracket - prev) * brackets[prev] + self._accum[year][prev]
+            accum[bracket] = \
+                (bracket - prev) * brackets[prev] + accum[prev]
             prev = bracket  # Keep track of next-lowest bracket
+        self._accum[year] = accum
 
     def tax_money(
             self, taxable_income, year, deduction=0, credit=0):
-- 
2.43.0


From 1177b28bf8f595780f4d554ed991f95fb92f77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 62/86] fix: find when an empty or overdrawn account reaches a
 balance

---
 forecaster/accounts/util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 20dcf70..b610cfb 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -164,7 +164,16 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
     Returns:
         A Decimal object representing the time required to
         grow (or shrink) from `value_now` to `value_then`.
+        This is infinite if `value_then` can't be reached by growth
+        (e.g. because `value_now` is 0, or has the opposite sign).
     """
+    # No amount of growth changes a zero value or the sign of a value:
+    if value_now == value_then:
+        return value_now * 0
+    if value_now * value_then <= 0:
+        inf = float('inf')
+        return inf if high_precision is None else high_precision(inf)
+
     return accumulation_function_inverse(
         accum=value_then/value_now, rate=rate, nper=nper,
         high_precision=high_precision)
-- 
2.43.0


From 1ca5b6048092850b71a22daf157351f0de53224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 63/86] fix: don't time transactions by ones which were undone

---
 forecaster/forecast/subforecast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 355291d..526af1b 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -440,7 +440,10 @@ class SubForecast(Ledger):
             is provided, the keys may include additional times. Values
             are amounts of transactions at the corresponding time.
         """
-        keys = account.keys() | {when}  # Always include `when`
+        # Ignore transactions that have no effect (e.g. because they have
+        # been undone), so that they don't affect the result:
+        keys = {t for t, value in account.items() if value != 0}
+        keys.add(when)  # Always include `when`
         # Use Account logic to determine how much is available at the
         # time of each existing transaction and also at `when`:
         accum = {
-- 
2.43.0


From 8a8a40926c509f81e269cc628263e2798a1b4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 64/86] fix: don't overdraw accounts before money paid in later
 arrives

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 526af1b..baa1bbc 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -488,5 +488,5 @@ class SubForecast(Ledger):
                     # If that time falls within the period
                     # (earlier, later), then add it!
                     if time > earlier and time < later:
-                        accum[time] = -sum(account.max_outflows(time).values())
+                        accum[time] = -account.max_outflow(time)
         return accum
-- 
2.43.0


From fbf21dfe3cf2ac238b48ad0a1f2cdf91d6424730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 65/86] fix: don't let deductions increase the spousal credit
 beyond its maximum

---
 forecaster/canada/tax.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 60f8e11..1e2f4c7 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -144,10 +144,11 @@ class TaxCanadaJurisdiction(Tax):
 
         # The credit is determined by reducing the spousal amount
         # by the spouse's (net) income, but in any event it's not
-        # negative.
-        credit = max(
-            max_spousal_amount - spouse_net_income,
-            0) # Money value
+        # negative. (If the spouse's deductions exceed their income,
+        # that doesn't increase the credit beyond its maximum.)
+        credit = min(
+            max(max_spousal_amount - spouse_net_income, 0), # Money value
+            max_spousal_amount)
 
         return credit
 
-- 
2.43.0


From 1e8ce19662972814a5965fd42e10360b261bb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 66/86] fix: assess groups given as iterators in every
 jurisdiction

---
 forecaster/tax.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 2a99c2d..e347677 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -775,6 +775,8 @@ class TaxMulti(object):
 
     def tax_people(self, people, year, deductions=None, credits_=None):
         """ Total tax liability for a group of people. """
+        # `people` might only be iterable once; each jurisdiction does:
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -787,6 +789,8 @@ class TaxMulti(object):
 
     def tax_spouses(self, people, year, deductions=None, credits_=None):
         """ Tax treatment for a pair of spouses. """
+        # `people` might only be iterable once; each jurisdiction does:
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -800,6 +804,9 @@ class TaxMulti(object):
     def __call__(
             self, income, year, deductions=None, credits_=None):
         """ Determines taxes owing in multiple jurisdictions. """
+        # `income` might only be iterable once; each jurisdiction does:
+        if isinstance(income, collections.abc.Iterable):
+            income = set(income)
         # Total tax is simply the sum of federal and prov. taxes.
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
-- 
2.43.0


From dcfba4798741a191bb64e65b04003469c06543ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 67/86] fix: find transactions at 'start' and 'end', and don't
 add one by looking

---
 forecaster/accounts/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index fed676e..70c1578 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -856,15 +856,19 @@ class Account(TaxSource):
         return when in self._transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        # Don't add a transaction at `when` if there isn't one.
+        return self._transactions.get(when, self.precision_convert(0))
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
-        self.add_transaction(value=value, when=key)
+        when = when_conv(key, high_precision=self.high_precision)
+        if when in self._transactions:
+            del self._transactions[when]
+        self.add_transaction(value=value, when=when)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        del self._transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
@@ -880,7 +884,8 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        return self._transactions.get(key, default)
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From c73139ffd85ce2e45286a7a0bf09e0fbdb51ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 68/86] fix: take only the missing equity from other assets to
 reach min_equity

---
 forecaster/strategy/allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..6a5c748 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -252,7 +252,7 @@ class AllocationStrategy(Strategy):
                 * allocation.bonds / (allocation.bonds + allocation.other)
             )
             other = allocation.other - (
-                (self.max_equity - allocation.stocks)
+                (self.min_equity - allocation.stocks)
                 * allocation.other / (allocation.bonds + allocation.other)
             )
             allocation = AssetAllocation(self.min_equity, bonds, other)
-- 
2.43.0


From c3781d24c3ded444c5aaeaa3bdd71ea42752cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 69/86] fix: move excess equity into bonds when there is
 nothing but equity

---
 forecaster/strategy/allocation.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index 6a5c748..e106978 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -234,15 +234,18 @@ class AllocationStrategy(Strategy):
         """
         if allocation.stocks > self.max_equity:
             # Move the excess weighting of equity into bonds and other
-            # proportionately to their current values:
-            bonds = allocation.bonds + (
-                (allocation.stocks - self.max_equity)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other + (
-                (allocation.stocks - self.max_equity)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
+            # proportionately to their current values (or, if there is
+            # nothing but equity, into bonds):
+            excess = allocation.stocks - self.max_equity
+            nonequity = allocation.bonds + allocation.other
+            if nonequity:
+                bonds = allocation.bonds + (
+                    excess * allocation.bonds / nonequity)
+                other = allocation.other + (
+                    excess * allocation.other / nonequity)
+            else:
+                bonds = allocation.bonds + excess
+                other = allocation.other
             allocation = AssetAllocation(self.max_equity, bonds, other)
         elif allocation.stocks < self.min_equity:
             # Move weighting to equity from bonds and other
-- 
2.43.0


From fbcc2127de0b2e616e203200a04c20cb5cbd08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 70/86] fix: give inflation since the base year in
 Scenario.inflation_adjustments, not its inverse

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From ac470d1267f04e4ca94ed0268a38e0309978ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 71/86] fix: find the earliest time at or after the one asked
 for when a balance is reached

---
 forecaster/accounts/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 70c1578..ae38e7e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -959,12 +959,23 @@ class Account(TaxSource):
             self.rate, balance, value, nper=self.nper,
             high_precision=self.high_precision)
 
+        # A balance which is growing away from `value` won't reach it:
+        if time < when:
+            time = self.precision_convert(float('inf'))
+
         # Now look ahead to the next transaction and, if it happens
-        # before `time`, recurse onto that transaction's timing:
+        # before `time`, recurse onto that transaction's timing (unless
+        # the transaction itself takes the balance to or past `value`):
         next_transaction = min(
             (key for key in self.transactions if key > when),
             default=time)
         if next_transaction < time:
+            before = value_at_time(
+                balance, self.rate, when, next_transaction, nper=self.nper,
+                high_precision=self.high_precision)
+            after = self.balance_at_time(next_transaction)
+            if min(before, after) <= value <= max(before, after):
+                return next_transaction
             time = self.time_to_balance(value, next_transaction)
 
         return time
-- 
2.43.0


From df18e8dca007cfae27bf64f7d53170cd9276c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 72/86] fix: leave a person's spouse as it was when refusing
 another

---
 forecaster/person.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6421728..1b1e606 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,10 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        # Spouse must be a Person. (Check this before changing anything.)
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -292,8 +296,6 @@ class Person(TaxSource):
 
         # If we're adding a new spouse, make sure that it links back:
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
-- 
2.43.0


From ec03ea2bb02b08bd5d8131a7fd6b24feffe702fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 73/86] fix: unlink the former spouse of a person who becomes
 someone else's

---
 forecaster/person.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/person.py b/forecaster/person.py
index 1b1e606..66c8cd3 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -300,6 +300,9 @@ class Person(TaxSource):
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
             # member of a client class.
+            if val.spouse is not None:
+                # The linkage is one-to-one, so unlink any former spouse
+                val.spouse._spouse = None
             val._spouse = self  # Use _spouse to avoid recursion
 
         # Update the spouse attr whether or not the new value is None
-- 
2.43.0


From 4e21e232e944bcb8558226cc55521f774b13d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 74/86] fix: revert to no raises when raise_rate_callable is
 set to None

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 66c8cd3..ed3b424 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From d01dca255bd79db55dec8f77beaa57cd24fd78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 75/86] fix: leave a person's retirement date as it was when
 refusing None

---
 forecaster/person.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index ed3b424..e3ffa02 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -201,7 +201,6 @@ class Person(TaxSource):
                 Floating retirement dates are not yet implemented.
         """
         if val is None:
-            self._retirement_date = None
             # NOTE: Delete this error when floating retirement dates
             # are implemented
             raise NotImplementedError(
-- 
2.43.0


From 424b513427b7568878959cfbe052d82a460d4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 76/86] fix: leave an account with its owner when refusing
 another

---
 forecaster/accounts/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index ae38e7e..979ce42 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,16 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # Do basic type-checks before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # Register with any new owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
-            # Register with new owner:
             val.accounts.add(self)
 
         self._owner = val
-- 
2.43.0


From 89e114c465e4b92674955f23fd0f90c9d49b84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 77/86] fix: notice balances reached just before a transaction

Account.time_to_balance works out when growth takes the balance to a
value and, if that's after the next transaction, looks on from there. If
the value is reached right at that transaction (e.g. because a transfer
was made then and later undone) the time may be rounded up to just after
it, where a growing balance is past the value already. It was then said
to be reached never, and stages shifted payments to a later time.
---
 forecaster/accounts/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 979ce42..ee5a08f 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -965,7 +965,8 @@ class Account(TaxSource):
 
         # Now look ahead to the next transaction and, if it happens
         # before `time`, recurse onto that transaction's timing (unless
-        # the transaction itself takes the balance to or past `value`):
+        # the balance has gotten to or past `value` by then, whether by
+        # the transaction itself or because `time` was rounded up):
         next_transaction = min(
             (key for key in self.transactions if key > when),
             default=time)
@@ -974,7 +975,9 @@ class Account(TaxSource):
                 balance, self.rate, when, next_transaction, nper=self.nper,
                 high_precision=self.high_precision)
             after = self.balance_at_time(next_transaction)
-            if min(before, after) <= value <= max(before, after):
+            if (
+                    min(balance, before, after) <= value <=
+                    max(balance, before, after)):
                 return next_transaction
             time = self.time_to_balance(value, next_transaction)
 
-- 
2.43.0


From 29256fc2c39522479d44d075416acdbf25c63857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 78/86] fix: get text parameters which are infinite or very
 large numbers

---
 forecaster/forecaster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index f1dcb30..189383d 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -417,9 +417,11 @@ class Forecaster(HighPrecisionOptional):
             return explicit_attr
 
         # If the number is losslessly representable as an int, use that:
-        int_attr = int(float_attr)
-        if float_attr == int_attr:
-            return int_attr
+        try:
+            return int(explicit_attr)
+        except ValueError: # Not just digits; it might be e.g. '1e3'
+            if float_attr.is_integer():
+                return int(float_attr)
 
         # Otherwise, if this is a true float, try to convert to
         # a high-precision numerical type if appropriate:
-- 
2.43.0


From 1c562fd98975c77612843198349a5e95dc952d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:03 +0000
Subject: [PATCH 79/86] fix: let positional args take the place of default
 values in Forecaster.build_param

---
 forecaster/forecaster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 189383d..6e1e446 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -3,6 +3,7 @@
 from copy import copy, deepcopy
 from functools import reduce
 from enum import Enum
+from inspect import signature
 from forecaster.forecast import (
     Forecast, IncomeForecast, LivingExpensesForecast,
     SavingForecast, WithdrawalForecast, TaxForecast)
@@ -338,6 +339,8 @@ class Forecaster(HighPrecisionOptional):
         if _special_builder and param_name in self.default_builders:
             return getattr(
                 self, self.default_builders[param_name])(*args, **kwargs)
+        if param_type is None:
+            param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
@@ -348,6 +351,9 @@ class Forecaster(HighPrecisionOptional):
             # attribute of the `Forecaster` object:
             for key, value in default_values.items():
                 default_values[key] = self._get_attr_recursive(value, memo=memo)
+            # There's no gap to fill where there's a positional arg:
+            for key in list(signature(param_type).parameters)[:len(args)]:
+                default_values.pop(key, None)
             # If any values have been provided explicitly, override
             # the defaults with that:
             default_values.update(kwargs)
@@ -355,8 +361,6 @@ class Forecaster(HighPrecisionOptional):
         # Build a new object (note that we don't set the corresponding
         # attribute of Forecaster; if this is called again, we'll build
         # a new object)
-        if param_type is None:
-            param_type = self.default_types[param_name]
         # Pass `high_precision` as a kwarg if the type supports it:
         is_high_precision_type = any(
             issubclass(param_type, high_precision_type)
-- 
2.43.0


From 2e5fea49458f7eb73ae8fcd8f6e00573083b6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:11 +0000
Subject: [PATCH 80/86] fix: give a high-precision Forecaster high-precision
 default settings

---
 forecaster/canada/forecaster.py | 3 ++-
 forecaster/forecaster.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/forecaster.py b/forecaster/canada/forecaster.py
index c34c811..90edf65 100644
--- a/forecaster/canada/forecaster.py
+++ b/forecaster/canada/forecaster.py
@@ -27,7 +27,8 @@ class ForecasterCanada(Forecaster):
         init logic for RRSPs, TFSAs, TaxableAccounts, and Tax objects.
         """
         if settings is None:
-            settings = SettingsCanada()
+            settings = SettingsCanada(
+                high_precision=kwargs.get('high_precision'))
         super().__init__(*args, settings=settings, **kwargs)
         self.default_values.update(DEFAULTVALUES)
         self.default_types.update(DEFAULTTYPES)
diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 6e1e446..6e5a56a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -152,7 +152,7 @@ class Forecaster(HighPrecisionOptional):
         # For `settings` specifically, use the default values provided
         # by the class if none are provided explicitly.
         if settings is None:
-            self.settings = Settings()
+            self.settings = Settings(high_precision=high_precision)
         else:
             self.settings = settings
         # For the rest, None is allowed:
-- 
2.43.0


From 0475aa01ef6d9604fb272d322e12ad0a98314260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:48 +0000
Subject: [PATCH 81/86] fix: work out ages on (and for those born on) leap days

---
 forecaster/person.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index e3ffa02..e367ba7 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -386,7 +386,8 @@ class Person(TaxSource):
 
         # Remember to check whether the month/day are earlier in `date`
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        # (Leap days have no counterpart in most other years.)
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From c37514aed512d1973ae6e3afe5a1fdc3cb9ce7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:42 +0000
Subject: [PATCH 82/86] fix: round an allocation's total, so that shares of a
 round sum stay even

---
 forecaster/strategy/transaction/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index ac5b9b3..7095cd9 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -471,8 +471,10 @@ class TransactionTraversal(HighPrecisionOptional):
                     self.high_precision is None):
                 total = float(total)
             # Now we can scale up `total` by `precision` and _then_
-            # truncate it to an int.
-            total = int(total / self.precision)
+            # round it to an int. (Truncating it would turn a rounding
+            # error in a round sum into uneven shares of it, and then
+            # which account gets what is left over is arbitrary.)
+            total = round(total / self.precision)
 
         # Create an empty graph:
         self.graph = _get_empty_graph()
-- 
2.43.0


From 14e42f8c006857493eb81f2e26e36438dd7bf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:06 +0000
Subject: [PATCH 83/86] fix: notice when a traversal's priority is the same
 list, edited

---
 forecaster/strategy/transaction/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 7095cd9..f3bc10b 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -216,10 +216,8 @@ class TransactionTraversal(HighPrecisionOptional):
     @priority.setter
     def priority(self, val):
         """ Sets priority """
-        if val == self._priority:
-            # Take no action if `priority` is unchanged.
-            return
-        # Otherwise, rebuild the annotated priority tree:
+        # Rebuild the annotated priority tree. (Even if `val` equals the
+        # current value; it might be the same list or dict, edited.)
         self._priority_tree = TransactionNode(val)
         self._priority = val
 
-- 
2.43.0


From d55d50cd8adda94b43c18191739feb3d3f52873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:37 +0000
Subject: [PATCH 84/86] fix: repay debts which are equally dear, or as large,
 in a definite order

---
 forecaster/strategy/debt_payment/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/forecaster/strategy/debt_payment/util.py b/forecaster/strategy/debt_payment/util.py
index 524bf2f..b9e588a 100644
--- a/forecaster/strategy/debt_payment/util.py
+++ b/forecaster/strategy/debt_payment/util.py
@@ -12,7 +12,9 @@ def avalanche_priority(debts):
     """ A priority tree of debts according to the avalanche strategy.
 
     Under the avalanche strategy, accounts with the highest rates are
-    repaid first, regardless of balance size.
+    repaid first, regardless of balance size. (Where rates are equal,
+    the lowest balance is repaid first, so that the order does not
+    depend on the order of `debts`, which is generally arbitrary.)
 
     This uses the priority tree pattern of `TransactionTraversal`; see
     that class for more information.
@@ -21,13 +23,15 @@ def avalanche_priority(debts):
         list[Debt]: An ordered list of Debts.
     """
     return sorted(
-        debts, key=lambda account: account.rate, reverse=True)
+        debts, key=lambda account: (-account.rate, abs(account.balance)))
 
 def snowball_priority(debts):
     """ A priority tree of debts according to the snowball strategy.
 
-    Under the avalanche strategy, accounts with the lowest balances are
-    repaid first, regardless of their rates.
+    Under the snowball strategy, accounts with the lowest balances are
+    repaid first, regardless of their rates. (Where balances are equal,
+    the highest rate is repaid first, so that the order does not depend
+    on the order of `debts`, which is generally arbitrary.)
 
     This uses the priority tree pattern of `TransactionTraversal`; see
     that class for more information.
@@ -36,7 +40,7 @@ def snowball_priority(debts):
         list[Debt]: An ordered list of Debts.
     """
     return sorted(
-        debts, key=lambda account: abs(account.balance), reverse=False)
+        debts, key=lambda account: (abs(account.balance), -account.rate))
 
 # Make it easy for client code to find the keys for the available
 # strategies (and then use them with DebtPaymentStrategy or to look
-- 
2.43.0


From 85355e509890cf7e82a51404980cfb6a8acb360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:58 +0000
Subject: [PATCH 85/86] fix: withhold tax on a withdrawal right at a bracket's
 limit at that bracket's rate, despite rounding errors

---
 forecaster/canada/accounts/rrsp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index e316f5f..cabcd2e 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -2,7 +2,8 @@
 
 from forecaster.canada.accounts.registered_account import RegisteredAccount
 from forecaster.ledger import recorded_property
-from forecaster.utility import extend_inflation_adjusted, nearest_year
+from forecaster.utility import (
+    EPSILON, extend_inflation_adjusted, nearest_year)
 
 class RRSP(RegisteredAccount):
     """ A Registered Retirement Savings Plan (Canada). """
@@ -160,6 +161,10 @@ class RRSP(RegisteredAccount):
             taxable_income
             * self.inflation_adjust(year, self.this_year)
         )
+        # A withdrawal right at the limit of a bracket is still in it.
+        # (Allow for rounding errors, so that it doesn't depend on the
+        # order in which withdrawals are added up.)
+        taxable_income_adjusted -= self.precision_convert(EPSILON)
         bracket = max(
             (
                 bracket for bracket in tax_rates
-- 
2.43.0


From 91e3da5beae713d5c42994a018005fb869ee0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:21:32 +0000
Subject: [PATCH 86/86] fix: spread a Decimal total over a timing whose weights
 are plain ints

---
 forecaster/utility/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index d7f4896..475beac 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -376,7 +376,7 @@ def transactions_from_timing(timing, total):
         timing = Timing(timing)
     normalization = sum(timing.values())
     transactions = {
-        time: total * (weight / normalization)
+        time: total * weight / normalization
         for time, weight in timing.items()}
     return transactions
 
-- 
2.43.0

