From febf607a243dc9e4fdd6e325506434f540b2f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 01/39] abci: make the oracle client replaceable in verif
 builds

---
 app/abci/abci_extensions.go     |  2 +-
 app/abci/oracle_client.go       | 17 +++++++++++++++++
 app/abci/oracle_client_verif.go | 24 ++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)
 create mode 100644 app/abci/oracle_client.go
 create mode 100644 app/abci/oracle_client_verif.go

diff --git a/app/abci/abci_extensions.go b/app/abci/abci_extensions.go
index 09bae9e..d6b2afd 100644
--- a/app/abci/abci_extensions.go
+++ b/app/abci/abci_extensions.go
@@ -56,7 +56,7 @@ func initializeOracle(chainID string, cfg oracleconfig.AppConfig, logger log.Log
 	}
 
 	// Create the oracle service.
-	oracleClient, err := oracleclient.NewPriceDaemonClientFromConfig(
+	oracleClient, err := newOracleClient(
 		cfg,
 		logger.With("client", "oracle"),
 		oracleMetrics,
diff --git a/app/abci/oracle_client.go b/app/abci/oracle_client.go
new file mode 100644
index 0000000..3ab4343
--- /dev/null
+++ b/app/abci/oracle_client.go
@@ -0,0 +1,17 @@
+//go:build !verif
+
+package abci
+
+import (
+	"cosmossdk.io/log"
+	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
+	oracleclient "github.com/skip-mev/connect/v2/service/clients/oracle"
+	servicemetrics "github.com/skip-mev/connect/v2/service/metrics"
+)
+
+// newOracleClient creates the client used to fetch prices from the oracle sidecar.
+func newOracleClient(
+	cfg oracleconfig.AppConfig, logger log.Logger, metrics servicemetrics.Metrics,
+) (oracleclient.OracleClient, error) {
+	return oracleclient.NewPriceDaemonClientFromConfig(cfg, logger, metrics)
+}
diff --git a/app/abci/oracle_client_verif.go b/app/abci/oracle_client_verif.go
new file mode 100644
index 0000000..ef3fdc6
--- /dev/null
+++ b/app/abci/oracle_client_verif.go
@@ -0,0 +1,24 @@
+//go:build verif
+
+package abci
+
+import (
+	"cosmossdk.io/log"
+	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
+	oracleclient "github.com/skip-mev/connect/v2/service/clients/oracle"
+	servicemetrics "github.com/skip-mev/connect/v2/service/metrics"
+)
+
+// OracleClientFactory, when set, provides the client used in place of the gRPC
+// connection to the oracle sidecar. It only exists in verification builds.
+var OracleClientFactory func(cfg oracleconfig.AppConfig) oracleclient.OracleClient
+
+// newOracleClient creates the client used to fetch prices from the oracle sidecar.
+func newOracleClient(
+	cfg oracleconfig.AppConfig, logger log.Logger, metrics servicemetrics.Metrics,
+) (oracleclient.OracleClient, error) {
+	if OracleClientFactory != nil {
+		return OracleClientFactory(cfg), nil
+	}
+	return oracleclient.NewPriceDaemonClientFromConfig(cfg, logger, metrics)
+}
-- 
2.43.0


From cf8ddd5ddfb09265c0d093da97d82bd0c1eea1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 02/39] fix: list only the requested target's unbonding
 delegations

The Pool/Operator/ServiceUnbondingDelegations queries ignored the target
ID of the request and returned the unbonding delegations of every target.
---
 x/restaking/keeper/grpc_query.go | 39 ++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..d421c58 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -254,13 +254,18 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 
 	// Query the pool unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(_ []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.PoolId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -393,13 +398,18 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 
 	// Query the operator unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(_ []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.OperatorId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -532,13 +542,18 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 
 	// Query the service unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(_ []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.ServiceId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
-- 
2.43.0


From dfa46bdaa96e65b987caaecde21184dd82bdf236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 03/39] fix: keep an operator's and a service's stake when they
 are edited

Update rebuilt the target without its tokens and delegator shares, so
editing the description of a target with delegations lost its stake.
---
 x/operators/types/models.go | 8 +++++++-
 x/services/types/models.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..efc9e26 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,7 +220,7 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
+	updated := NewOperator(
 		o.ID,
 		o.Status,
 		update.Moniker,
@@ -228,6 +228,12 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL,
 		o.Admin,
 	)
+
+	// Updating the description must not affect what is delegated to the operator
+	updated.Tokens = o.Tokens
+	updated.DelegatorShares = o.DelegatorShares
+
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..48b60d5 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,7 +241,7 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
+	updated := NewService(
 		s.ID,
 		s.Status,
 		update.Name,
@@ -251,6 +251,12 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		s.Admin,
 		s.Accredited,
 	)
+
+	// Updating the description must not affect what is delegated to the service
+	updated.Tokens = s.Tokens
+	updated.DelegatorShares = s.DelegatorShares
+
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7eb7dee5bc4945723350eeb0e1427987a70e386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 04/39] fix: look up the operator in the allowed operators
 invariant

The invariant looked up an operator having the ID of the service.
---
 x/restaking/keeper/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/invariants.go b/x/restaking/keeper/invariants.go
index 606a7e8..c11b736 100644
--- a/x/restaking/keeper/invariants.go
+++ b/x/restaking/keeper/invariants.go
@@ -374,7 +374,7 @@ func AllowedOperatorsExistInvariant(k *Keeper) sdk.Invariant {
 		// Iterate over all the services joined by operators
 		var notFoundOperatorsIDs []uint32
 		err := k.IterateAllServicesAllowedOperators(ctx, func(serviceID uint32, operatorID uint32) (stop bool, err error) {
-			_, found, err := k.operatorsKeeper.GetOperator(ctx, serviceID)
+			_, found, err := k.operatorsKeeper.GetOperator(ctx, operatorID)
 			if err != nil {
 				return true, err
 			}
-- 
2.43.0


From 88db4e871827adec0fcb416b4a7e7b453a022368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:37 +0000
Subject: [PATCH 05/39] fix: complete unbonding delegations maturing together
 only once

An unbonding delegation is queued once per entry but completing it
completes all of its mature entries, so two entries maturing since the
last block made the end blocker fail and halted the chain.
---
 x/restaking/keeper/end_blocker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..5b3738f 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"errors"
 	"fmt"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -19,6 +20,12 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 	for _, data := range matureUnbonds {
 
 		balances, err := k.CompleteUnbonding(ctx, data)
+		if errors.Is(err, types.ErrNoUnbondingDelegation) {
+			// An unbonding delegation is queued once per entry, and completing it
+			// completes all of its mature entries: if more than one of them matured
+			// since the last block there is nothing left to do for the others.
+			continue
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 67fa83eb3e9b656dcba7b971c0a1f411d13436b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:37 +0000
Subject: [PATCH 06/39] fix: do not delete operators and services that still
 hold stake

Deleting an operator or a service with delegations left them impossible
to undelegate, and with unbonding delegations it halted the chain when
they matured.
---
 x/restaking/keeper/operators_hooks.go | 32 +++++++++++++++++++++++++++
 x/restaking/keeper/services_hooks.go  | 32 +++++++++++++++++++++++++++
 x/restaking/types/errors.go           |  1 +
 3 files changed, 65 insertions(+)

diff --git a/x/restaking/keeper/operators_hooks.go b/x/restaking/keeper/operators_hooks.go
index 0c3bd91..7adfefc 100644
--- a/x/restaking/keeper/operators_hooks.go
+++ b/x/restaking/keeper/operators_hooks.go
@@ -7,6 +7,7 @@ import (
 	"cosmossdk.io/collections"
 
 	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 )
 
 var _ operatorstypes.OperatorsHooks = &OperatorsHooks{}
@@ -23,6 +24,13 @@ func (k *Keeper) OperatorsHooks() operatorstypes.OperatorsHooks {
 
 // BeforeOperatorDeleted implements types.OperatorsHooks.
 func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID uint32) error {
+	// Nobody could get back what is still delegated to, or unbonding from, an
+	// operator that no longer exists
+	err := o.ensureNoOperatorDelegations(ctx, operatorID)
+	if err != nil {
+		return err
+	}
+
 	// After the operator has been deleted
 	// we remove the data that we keep in the x/restaking module that are linked
 	// to the operator.
@@ -55,6 +63,30 @@ func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID u
 	return nil
 }
 
+// ensureNoOperatorDelegations returns an error if the operator having the given ID
+// has any delegation or unbonding delegation.
+func (o *OperatorsHooks) ensureNoOperatorDelegations(ctx context.Context, operatorID uint32) error {
+	operator, found, err := o.operatorsKeeper.GetOperator(ctx, operatorID)
+	if err != nil {
+		return err
+	}
+	if found && !operator.DelegatorShares.IsZero() {
+		return types.ErrTargetHasDelegations
+	}
+
+	unbondingDelegations, err := o.GetAllOperatorUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	for _, unbondingDelegation := range unbondingDelegations {
+		if unbondingDelegation.TargetID == operatorID {
+			return types.ErrTargetHasDelegations
+		}
+	}
+
+	return nil
+}
+
 func (o *OperatorsHooks) removeOperatorFromServicesAllowList(ctx context.Context, operatorID uint32) error {
 	// Get all the keys to remove
 	var toRemoveKeys []collections.Pair[uint32, uint32]
diff --git a/x/restaking/keeper/services_hooks.go b/x/restaking/keeper/services_hooks.go
index 54485ae..fc93398 100644
--- a/x/restaking/keeper/services_hooks.go
+++ b/x/restaking/keeper/services_hooks.go
@@ -5,6 +5,7 @@ import (
 
 	"cosmossdk.io/collections"
 
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
@@ -20,6 +21,13 @@ func (k *Keeper) ServicesHooks() servicestypes.ServicesHooks {
 
 // BeforeServiceDeleted implements types.ServicesHooks.
 func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Nobody could get back what is still delegated to, or unbonding from, a
+	// service that no longer exists
+	err := h.ensureNoServiceDelegations(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	// After the service has been deleted
 	// we remove the data that we keep in the x/restaking
 	// associated to this service.
@@ -87,6 +95,30 @@ func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint
 	return nil
 }
 
+// ensureNoServiceDelegations returns an error if the service having the given ID
+// has any delegation or unbonding delegation.
+func (h *ServicesHooks) ensureNoServiceDelegations(ctx context.Context, serviceID uint32) error {
+	service, found, err := h.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+	if found && !service.DelegatorShares.IsZero() {
+		return types.ErrTargetHasDelegations
+	}
+
+	unbondingDelegations, err := h.GetAllServiceUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	for _, unbondingDelegation := range unbondingDelegations {
+		if unbondingDelegation.TargetID == serviceID {
+			return types.ErrTargetHasDelegations
+		}
+	}
+
+	return nil
+}
+
 // AfterServiceDeactivated implements types.ServicesHooks.
 func (h *ServicesHooks) AfterServiceDeactivated(ctx context.Context, serviceID uint32) error {
 	return nil
diff --git a/x/restaking/types/errors.go b/x/restaking/types/errors.go
index ca193d8..e3d2249 100644
--- a/x/restaking/types/errors.go
+++ b/x/restaking/types/errors.go
@@ -19,4 +19,5 @@ var (
 	ErrPoolAlreadySecuringService     = errors.Register(ModuleName, 12, "pool already securing the service")
 	ErrPoolNotSecuringService         = errors.Register(ModuleName, 13, "pool not securing the service")
 	ErrDenomNotRestakable             = errors.Register(ModuleName, 14, "denom not restakable")
+	ErrTargetHasDelegations           = errors.Register(ModuleName, 15, "target still has delegations or unbonding delegations")
 )
-- 
2.43.0


From cf5e1a191c0a1af94530a5f98b585a97d43dab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 07/39] fix: filter the operators of a service by its own allow
 list

ServiceOperators swapped the operator and service IDs when it checked
whether an operator can validate the service.
---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index d421c58..7f988d6 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From 82b0567987d438cf0f1ccaad7b56a1f8ac9707fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 08/39] fix: do not halt the chain when a service with rewards
 plans is deleted

Allocating and terminating the rewards plans of a deleted service failed
the begin blocker.
---
 x/rewards/keeper/allocation.go   |  3 ++-
 x/rewards/keeper/rewards_plan.go | 19 ++++---------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..96d26f8 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -202,8 +202,9 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return err
 	}
 
+	// The service may have been deleted while its plans are still running
 	if !found {
-		return servicestypes.ErrServiceNotFound
+		return nil
 	}
 
 	// Ensure that we are distribution rewards only for active services
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..c6185d4 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -129,23 +129,12 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 	rewardsPoolAddr := plan.MustGetRewardsPoolAddress(k.accountKeeper.AddressCodec())
 	remaining := k.bankKeeper.GetAllBalances(ctx, rewardsPoolAddr)
 	if remaining.IsAllPositive() {
-		// Get the service's address.
-		service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
-		if err != nil {
-			return err
-		}
-
-		if !found {
-			return servicestypes.ErrServiceNotFound
-		}
-
-		serviceAddr, err := k.accountKeeper.AddressCodec().StringToBytes(service.Address)
-		if err != nil {
-			return err
-		}
+		// Get the service's address. We derive it from the ID since the service
+		// may have been deleted in the meanwhile.
+		serviceAddr := servicestypes.GetServiceAddress(plan.ServiceID)
 
 		// Transfer all the remaining rewards to the service's address.
-		err = k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
+		err := k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5cad78caad3eb3c9272ae63b1132dbf79c3d60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 09/39] fix: take rewards from a plan only when they can be
 allocated

The rewards of a block were moved out of the plan's rewards pool before
checking that the service is active and that there are delegations to
allocate them to, and also when none of the targets of a weighted
distribution is eligible: they were then lost in the global rewards pool.
---
 x/rewards/keeper/allocation.go | 48 +++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 96d26f8..5d5ecfa 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -191,12 +191,6 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
-	// Send the current block's rewards to the global rewards pool.
-	err := k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
-	if err != nil {
-		return err
-	}
-
 	service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
 	if err != nil {
 		return err
@@ -220,6 +214,13 @@ func (k *Keeper) AllocateRewardsByPlan(
 	if err != nil {
 		return err
 	}
+	hasRecipients, err := k.hasRecipients(plan.PoolsDistribution, poolDistrInfos)
+	if err != nil {
+		return err
+	}
+	if !hasRecipients {
+		totalPoolsDelValues = math.LegacyZeroDec()
+	}
 
 	eligibleOperators, err := k.getEligibleOperators(ctx, service, operators)
 	if err != nil {
@@ -229,6 +230,13 @@ func (k *Keeper) AllocateRewardsByPlan(
 	if err != nil {
 		return err
 	}
+	hasRecipients, err = k.hasRecipients(plan.OperatorsDistribution, operatorDistrInfos)
+	if err != nil {
+		return err
+	}
+	if !hasRecipients {
+		totalOperatorsDelValues = math.LegacyZeroDec()
+	}
 
 	// Filter out the not allowed denoms from the tokens that have been
 	// delegated toward a service.
@@ -248,6 +256,13 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
+	// Send the current block's rewards to the global rewards pool. We do this only
+	// now that we know that there's someone to allocate them to.
+	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	if err != nil {
+		return err
+	}
+
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := uint32(0)
 	if totalPoolsDelValues.IsPositive() {
@@ -424,6 +439,27 @@ func (k *Keeper) getDistrInfos(
 	return distrInfos, totalDelValues, nil
 }
 
+// hasRecipients returns false if the given distribution would not allocate
+// rewards to any of the given targets: this is the case of a weighted
+// distribution that doesn't list any of them.
+func (k *Keeper) hasRecipients(distr types.Distribution, distrInfos []DistributionInfo) (bool, error) {
+	distrType, err := types.GetDistributionType(k.cdc, distr)
+	if err != nil {
+		return false, err
+	}
+
+	typ, ok := distrType.(*types.DistributionTypeWeighted)
+	if !ok {
+		return len(distrInfos) > 0, nil
+	}
+
+	return slices.ContainsFunc(distrInfos, func(distrInfo DistributionInfo) bool {
+		return slices.ContainsFunc(typ.Weights, func(weight types.DistributionWeight) bool {
+			return weight.DelegationTargetID == distrInfo.DelegationTarget.GetID()
+		})
+	}), nil
+}
+
 // allocateRewards allocates rewards to each delegation target based on the
 // given distribution type. allocateRewards skips rewards allocation if there's
 // no delegation targets specified in the distribution. If the distribution type
-- 
2.43.0


From 196b212579acd9bb0c93564c7d95acdafc132f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 10/39] fix: allocate rewards only to the restakable tokens of
 a target

The value of a target counts only the tokens that are restakable for the
service, but its rewards were split over all of its tokens: more rewards
than available were allocated, and to tokens that should not earn any.
---
 x/rewards/keeper/allocation.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 5d5ecfa..921345e 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -21,10 +21,11 @@ import (
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
-// DistributionInfo stores information about a delegation target and its
-// delegation value.
+// DistributionInfo stores information about a delegation target, the tokens
+// delegated to it that are eligible for rewards and their value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
+	Tokens           sdk.Coins
 	DelegationsValue math.LegacyDec
 }
 
@@ -311,6 +312,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -432,6 +434,7 @@ func (k *Keeper) getDistrInfos(
 
 		distrInfos = append(distrInfos, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           targetTokens,
 			DelegationsValue: delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
@@ -574,6 +577,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	tokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -590,6 +594,7 @@ func (k *Keeper) allocateRewardsToUsers(
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           tokens,
 			DelegationsValue: totalDelValues,
 		}, rewards)
 	default:
@@ -601,7 +606,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.Tokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From 96ffeef8ff46eb938cb35ff66587cb0a175a892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 11/39] fix: apply the global restakable denoms to services
 without their own

Tokens that are not restakable were still counted, and rewarded, in the
operators and in the services that don't configure their allowed denoms.
---
 x/rewards/keeper/allocation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 921345e..777f038 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -147,6 +147,9 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 				)
 				return false, nil
 			}
+		} else {
+			// The service allows every denom: use the global ones
+			serviceRestakableDenoms = restakableDenoms
 		}
 
 		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
-- 
2.43.0


From b0fbe45ab621b456432beae1a5e361a6ed0ce69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 12/39] fix: do not overflow the sum of the weights of a
 rewards plan

---
 x/rewards/keeper/allocation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 777f038..7e5dc12 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -268,15 +268,15 @@ func (k *Keeper) AllocateRewardsByPlan(
 	}
 
 	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
-- 
2.43.0


From 8a9df90a53efc270f8f4bd99c996e2d57f4c10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 13/39] fix: update the pool-service shares of pools that don't
 secure the service

The shares of the delegators of a pool that trust a service are counted
whenever their delegations change, regardless of whether the pool secures
the service, so they have to be updated when their preferences change
too: otherwise the totals drift, and they can even become negative.
---
 x/rewards/keeper/pool_service_shares.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..c02e8d0 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -21,15 +21,6 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	}
 
 	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
 		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
 		if err != nil {
 			return true, err
-- 
2.43.0


From 3c3694524c60693c6d0c78cb6aa76549a02f0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 14/39] fix: update the pool-service shares when an
 accreditation changes

The hook updated the users having a direct delegation to the service
rather than the delegators of the pools, whose trust in the service is
what changes. It also ran after the new status was stored, so the rewards
accrued until then were calculated with the wrong status.
---
 x/rewards/keeper/hooks.go     | 52 +++++++++++++++++++++++------------
 x/services/keeper/services.go | 11 ++++----
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..63fb1fa 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -131,7 +131,9 @@ func (k *Keeper) AfterDelegationModified(ctx context.Context, delType restakingt
 	return nil
 }
 
-// AfterServiceAccreditationModified implements servicestypes.ServicesHooks
+// AfterServiceAccreditationModified is called after the accreditation status of
+// a service has changed, but before the service is stored: the rewards accrued
+// until now have to be calculated using the status they have been allocated with.
 func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error {
 	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
 	if err != nil {
@@ -142,33 +144,49 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
-		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+	// Clone the service and invert the accreditation status to get the
+	// new state
+	serviceAfter := service
+	serviceAfter.Accredited = !serviceAfter.Accredited
+
+	delegators, err := k.getPoolDelegators(ctx)
+	if err != nil {
+		return err
+	}
+
+	for _, delegator := range delegators {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, delegator)
 		if err != nil {
-			return true, err
+			return err
 		}
 
-		// Clone the service and invert the accreditation status to get the
-		// previous state
-		serviceBefore := service
-		serviceBefore.Accredited = !serviceBefore.Accredited
-
-		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
-		trustedAfter := preferences.IsServiceTrusted(service)
+		trustedBefore := preferences.IsServiceTrusted(service)
+		trustedAfter := preferences.IsServiceTrusted(serviceAfter)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.AfterUserTrustedServiceUpdated(ctx, delegator, service.ID, trustedAfter)
 			if err != nil {
-				return true, err
+				return err
 			}
 		}
-		return false, nil
-	})
-	if err != nil {
-		return err
 	}
 	return nil
 }
 
+// getPoolDelegators returns the addresses of the users that have at least one
+// pool delegation.
+func (k *Keeper) getPoolDelegators(ctx context.Context) ([]string, error) {
+	var delegators []string
+	seen := make(map[string]struct{})
+	err := k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		if _, ok := seen[del.UserAddress]; !ok {
+			seen[del.UserAddress] = struct{}{}
+			delegators = append(delegators, del.UserAddress)
+		}
+		return false, nil
+	})
+	return delegators, err
+}
+
 // AfterUserPreferencesModified is called after a user's trust in a service is
 // updated. It updates the total delegator shares for the service in all pools
 // where the user has a delegation.
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..e53693b 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -167,15 +167,16 @@ func (k *Keeper) SetServiceAccredited(ctx context.Context, serviceID uint32, acc
 		return nil
 	}
 
-	// Update the service accreditation status
-	service.Accredited = accredited
-	err = k.SaveService(ctx, service)
+	// Call the hook. This is done before storing the new status so that what
+	// depends on the previous one can still be settled.
+	err = k.AfterServiceAccreditationModified(ctx, service.ID)
 	if err != nil {
 		return err
 	}
 
-	// Call the hook
-	return k.AfterServiceAccreditationModified(ctx, service.ID)
+	// Update the service accreditation status
+	service.Accredited = accredited
+	return k.SaveService(ctx, service)
 }
 
 // HasService checks if a Service with the given ID exists in the KVStore
-- 
2.43.0


From a2d7069f36174206910cd42b705df7024566ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 15/39] fix: count the pool delegators that trust a service
 since its creation

A user may trust a service as soon as it is created, because of how they
trust non accredited services, but their shares were not added to the
totals: decrementing them later panicked.
---
 x/rewards/keeper/pool_service_shares.go | 31 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  7 +++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index c02e8d0..f96d64a 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -4,6 +4,7 @@ import (
 	"context"
 
 	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
+	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
 // AfterUserTrustedServiceUpdated is called after a user's trust in a service is
@@ -50,3 +51,33 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 		return false, nil
 	})
 }
+
+// initializePoolServiceTotalDelegatorShares sets the total delegator shares of a
+// newly created service for all the pools, since the current pool delegators may
+// trust it already.
+func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+			if err != nil {
+				return true, err
+			}
+		}
+
+		return false, nil
+	})
+}
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..97792d5 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,12 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	return h.k.initializePoolServiceTotalDelegatorShares(ctx, serviceID)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
-- 
2.43.0


From 4b160051d4f0fe57a494687d04869b80a041dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 16/39] fix: pay the rewards that pool delegators earned from a
 deleted service

Rewards of a pool are only calculated for the services that exist, so
what the delegators had not withdrawn before the deletion was lost.
---
 x/rewards/keeper/pool_service_shares.go | 34 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  7 +++++
 2 files changed, 41 insertions(+)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index f96d64a..483c2fd 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -81,3 +81,37 @@ func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context,
 		return false, nil
 	})
 }
+
+// removePoolDelegatorsTrust withdraws the rewards of all the pool delegators that
+// trust the given service, and stops counting their shares for it.
+func (k *Keeper) removePoolDelegatorsTrust(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	delegators, err := k.getPoolDelegators(ctx)
+	if err != nil {
+		return err
+	}
+
+	for _, delegator := range delegators {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, delegator)
+		if err != nil {
+			return err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.AfterUserTrustedServiceUpdated(ctx, delegator, serviceID, false)
+			if err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index 97792d5..2c881d7 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -39,6 +39,13 @@ func (h ServicesHooks) AfterServiceDeactivated(context.Context, uint32) error {
 
 // BeforeServiceDeleted implements servicestypes.ServicesHooks
 func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// The rewards that the pool delegators have accrued from this service can't be
+	// withdrawn once it is deleted
+	err := h.k.removePoolDelegatorsTrust(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From c7fc69787a96a24c4da5c1fa120a1ee04e7f1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 17/39] fix: drop the previous ticker of an asset when it is
 changed

Registering an asset again with another ticker left it listed among the
assets of the previous one.
---
 x/assets/keeper/assets.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..49278ba 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -4,12 +4,24 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
 // SetAsset stores an asset in the store
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// Remove the previous ticker of the asset, if any
+	previous, err := k.Assets.Get(ctx, asset.Denom)
+	if err != nil && !errors.IsOf(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil && previous.Ticker != asset.Ticker {
+		if err := k.TickerIndexes.Remove(ctx, collections.Join(previous.Ticker, asset.Denom)); err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 36748cec68019f8224122126d23f7106a7adada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:08 +0000
Subject: [PATCH 18/39] fix: reject assets whose exponent is too large

Pricing an asset having an exponent greater than 18 overflowed, which
failed the begin blocker as soon as it was delegated to a service.
---
 x/assets/types/models.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/assets/types/models.go b/x/assets/types/models.go
index a8eb6e6..4613d48 100644
--- a/x/assets/types/models.go
+++ b/x/assets/types/models.go
@@ -3,6 +3,7 @@ package types
 import (
 	"fmt"
 
+	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
@@ -15,6 +16,10 @@ func NewAsset(denom, ticker string, exponent uint32) Asset {
 	}
 }
 
+// MaxExponent is the maximum exponent that an asset can have: the value of an
+// amount of an asset having a greater one can't be represented.
+const MaxExponent = math.LegacyPrecision
+
 // Validate validates the Asset instance
 func (asset *Asset) Validate() error {
 	err := sdk.ValidateDenom(asset.Denom)
@@ -27,5 +32,9 @@ func (asset *Asset) Validate() error {
 		return fmt.Errorf("invalid ticker: %w", err)
 	}
 
+	if asset.Exponent > MaxExponent {
+		return fmt.Errorf("invalid exponent: %d > %d", asset.Exponent, MaxExponent)
+	}
+
 	return nil
 }
-- 
2.43.0


From d57059e78734634c60651112c355c7588b425993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 19/39] fix: treat assets whose currency pair has no price yet
 as worthless

The oracle returns an error for the currency pairs that are listed but
have not received a price, which failed the begin blocker.
---
 x/rewards/keeper/oracle.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 388a7c6..6335763 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"context"
+	stderrors "errors"
 	stdmath "math"
 
 	"cosmossdk.io/collections"
@@ -9,6 +10,7 @@ import (
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
+	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
 
 	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
 	"github.com/milkyway-labs/milkyway/v3/x/rewards/types"
@@ -32,6 +34,13 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 		if errors.IsOf(err, collections.ErrNotFound) {
 			return asset, math.LegacyZeroDec(), nil
 		}
+
+		// The same applies if there's no price for the currency pair yet.
+		var noPriceErr oracletypes.QuotePriceNotExistError
+		if stderrors.As(err, &noPriceErr) {
+			return asset, math.LegacyZeroDec(), nil
+		}
+
 		return asset, math.LegacyDec{}, err
 	}
 
-- 
2.43.0


From 9d2094609625d823913d443df2de4f73f6e79229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 20/39] fix: support currency pairs having more than 18
 decimals

The market map allows up to 36 of them, but pricing an asset with more
than 18 panicked in the begin blocker.
---
 x/rewards/keeper/oracle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 6335763..782bd06 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -51,7 +51,8 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 
 	// Divide returned quote price by 10^{decimals} gives us the real price in
 	// decimal number.
-	return asset, math.LegacyNewDecFromIntWithPrec(qpn.Price, int64(decimals)), nil
+	// NOTE: decimals can be greater than the precision of a decimal number.
+	return asset, math.LegacyNewDecFromInt(qpn.Price).QuoInt(math.NewIntWithDecimal(1, int(decimals))), nil
 }
 
 func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDec, error) {
-- 
2.43.0


From cf50151a39deba6b469ee3a1853205f5e1f0fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 21/39] fix: pay the commission of a deleted operator to its
 admin

The commission was taken from the module account rather than from the
rewards pool, so that deleting an operator having some commission failed,
and it was meant for the operator's own address, which nobody controls.
---
 x/rewards/keeper/alias_functions.go | 23 ++++-------------------
 x/rewards/keeper/target.go          |  2 +-
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..547bef1 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,30 +69,15 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address that receives the commission of an
+// operator, which is the withdraw address of its admin
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
-	// Try getting a custom withdraw address
-	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
+	adminAddr, err := k.accountKeeper.AddressCodec().StringToBytes(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
-	}
-
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
-	}
-
-	// By default, use the operator admin address as the withdraw address
-	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
-	if err != nil {
-		return nil, err
-	}
-
-	return adminAddress, nil
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddr)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From e58251ed0b83666287a576796270afe747ecc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 22/39] fix: require the minimum stake also for weighted votes
 and nested authz votes

---
 ante/gov_vote_ante.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..4eb73fe 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -72,6 +72,16 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
@@ -114,12 +124,22 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 		return nil
 	}
 
-	validAuthz := func(execMsg *authz.MsgExec) error {
+	var validAuthz func(execMsg *authz.MsgExec) error
+	validAuthz = func(execMsg *authz.MsgExec) error {
 		for _, v := range execMsg.Msgs {
 			var innerMsg sdk.Msg
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
+
+			// authz messages can be nested
+			if innerExecMsg, ok := innerMsg.(*authz.MsgExec); ok {
+				if err := validAuthz(innerExecMsg); err != nil {
+					return err
+				}
+				continue
+			}
+
 			if err := validMsg(innerMsg); err != nil {
 				return err
 			}
-- 
2.43.0


From 3d63a655a2a6393908ceebe1cbeb4e4124d612a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 23/39] fix: check expedited proposals submitted through authz

---
 ante/gov_expedited_ante.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..cb3aa5b 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -39,19 +40,36 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 // Legacy proposals submitted using "milkywayd tx gov submit-legacy-proposal" cannot be marked as expedited.
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
-		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
+		if err := g.validateMsgs(tx.GetMsgs()); err != nil {
+			return ctx, err
+		}
+	}
+	return next(ctx, tx, simulate)
+}
+
+// validateMsgs checks the expedited proposals contained in the given messages,
+// including the ones that are executed through (possibly nested) authz messages.
+func (g GovExpeditedProposalsDecorator) validateMsgs(msgs []sdk.Msg) error {
+	for _, msg := range msgs {
+		switch msg := msg.(type) {
+		case *govv1.MsgSubmitProposal:
+			if !msg.Expedited {
 				continue
 			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
-				}
+			if err := g.validateExpeditedGovProp(msg); err != nil {
+				return err
+			}
+		case *authz.MsgExec:
+			innerMsgs, err := msg.GetMessages()
+			if err != nil {
+				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
+			}
+			if err := g.validateMsgs(innerMsgs); err != nil {
+				return err
 			}
 		}
 	}
-	return next(ctx, tx, simulate)
+	return nil
 }
 
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
-- 
2.43.0


From 0f5ba952b1957d8136fd1809b566b66cc523e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 24/39] fix: create the liquid vesting module account at
 genesis

---
 x/liquidvesting/keeper/genesis.go         | 6 ++++++
 x/liquidvesting/types/expected_keepers.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..e29a571 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -34,6 +34,12 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		return err
 	}
 
+	// Create the module account if it does not exist yet, so that nobody can
+	// make it a regular account by sending coins to its address before its first use
+	if k.accountKeeper.GetModuleAccount(ctx, types.ModuleName) == nil {
+		return fmt.Errorf("%s module account has not been set", types.ModuleName)
+	}
+
 	// Store the params
 	err = k.SetParams(ctx, state.Params)
 	if err != nil {
diff --git a/x/liquidvesting/types/expected_keepers.go b/x/liquidvesting/types/expected_keepers.go
index 6b50d41..4347a23 100644
--- a/x/liquidvesting/types/expected_keepers.go
+++ b/x/liquidvesting/types/expected_keepers.go
@@ -13,6 +13,7 @@ import (
 
 type AccountKeeper interface {
 	AddressCodec() address.Codec
+	GetModuleAccount(ctx context.Context, moduleName string) sdk.ModuleAccountI
 }
 
 type BankKeeper interface {
-- 
2.43.0


From 218d492e26cbc64b37add7dbb8fc9d58e71bf202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 25/39] fix: treat nil prices as zero when valuing assets

---
 x/rewards/keeper/oracle.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 782bd06..3ca4214 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	stderrors "errors"
 	stdmath "math"
 
 	"cosmossdk.io/collections"
@@ -10,7 +9,6 @@ import (
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
-	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
 
 	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
 	"github.com/milkyway-labs/milkyway/v3/x/rewards/types"
@@ -35,15 +33,14 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 			return asset, math.LegacyZeroDec(), nil
 		}
 
-		// The same applies if there's no price for the currency pair yet.
-		var noPriceErr oracletypes.QuotePriceNotExistError
-		if stderrors.As(err, &noPriceErr) {
-			return asset, math.LegacyZeroDec(), nil
-		}
-
 		return asset, math.LegacyDec{}, err
 	}
 
+	// The same applies if there's no price for the currency pair yet.
+	if qpn.Price.IsNil() {
+		return asset, math.LegacyZeroDec(), nil
+	}
+
 	decimals, err := k.oracleKeeper.GetDecimalsForCurrencyPair(sdkCtx, cp)
 	if err != nil {
 		return asset, math.LegacyDec{}, err
-- 
2.43.0


From 9ea0a53d03dc955408f34dc46d97953df388934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 26/39] fix: bound the daily amounts of a rewards plan

---
 x/rewards/types/models.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/rewards/types/models.go b/x/rewards/types/models.go
index cfb43cf..acb37cd 100644
--- a/x/rewards/types/models.go
+++ b/x/rewards/types/models.go
@@ -18,6 +18,11 @@ import (
 // MaxRewardsPlanDescriptionLength is the maximum length of a rewards plan description.
 const MaxRewardsPlanDescriptionLength = 1000
 
+// MaxRewardsPlanAmountBitLen is the maximum bit length of the amounts that a rewards
+// plan can distribute per day, which ensures that computing the rewards of a block
+// never overflows.
+const MaxRewardsPlanAmountBitLen = 128
+
 var (
 	_ DistributionType      = (*DistributionTypeBasic)(nil)
 	_ DistributionType      = (*DistributionTypeWeighted)(nil)
@@ -92,6 +97,12 @@ func (plan RewardsPlan) Validate(unpacker codectypes.AnyUnpacker) error {
 		return fmt.Errorf("invalid amount per day: %w", err)
 	}
 
+	for _, coin := range plan.AmountPerDay {
+		if coin.Amount.BigInt().BitLen() > MaxRewardsPlanAmountBitLen {
+			return fmt.Errorf("too large amount per day: %s", coin)
+		}
+	}
+
 	if !plan.EndTime.After(plan.StartTime) {
 		return fmt.Errorf(
 			"end time must be after start time: %s <= %s",
-- 
2.43.0


From c5b0c92a7601a1b5308b5e29576ca913fa0bb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 27/39] fix: refuse a negative restaking unbonding time

---
 x/restaking/types/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/types/params.go b/x/restaking/types/params.go
index f85eaab..4e79399 100644
--- a/x/restaking/types/params.go
+++ b/x/restaking/types/params.go
@@ -24,7 +24,7 @@ func DefaultParams() Params {
 
 // Validate performs basic validation of params
 func (p *Params) Validate() error {
-	if p.UnbondingTime == 0 {
+	if p.UnbondingTime <= 0 {
 		return fmt.Errorf("invalid unbonding time: %s", p.UnbondingTime)
 	}
 
-- 
2.43.0


From 544ab58ab180a6de4a08d504d485f59593b69f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 28/39] fix: unbond restaked assets only from the delegations
 of their denoms

---
 x/restaking/keeper/alias_functions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..dbafc44 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -850,9 +850,16 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 			return false, nil
 		}
 
+		// Consider only the tokens that the user has restaked with this delegation,
+		// since a target may not be able to convert other tokens to shares
+		delegatedTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, target.TokensFromShares(delegation.Shares))
+		if len(delegatedTokens) == 0 {
+			return false, nil
+		}
+
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		involvedShares, err := target.SharesFromDecCoins(delegatedTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 78ecf28342f67881f0a51e6e091695cf0e04b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 29/39] fix: credit returning tokens to the insurance fund with
 their own denom

---
 x/liquidvesting/keeper/ibc.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..6029a04 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -65,14 +65,8 @@ func (k *Keeper) OnRecvPacket(
 
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
-		// Convert the coin denom to its IBC representation
-		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
-		// NOTE: sourcePrefix contains the trailing "/"
-		prefixedDenom := sourcePrefix + data.Denom
-		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
-		// Convert the insurance deposit to its IBC representation
-		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
+		// Convert the insurance deposit to its representation on this chain
+		ibcCoin := sdk.NewCoin(getReceivedDenom(packet, data.Denom), deposit.Amount)
 
 		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
 		if err != nil {
@@ -90,3 +84,21 @@ func (k *Keeper) OnRecvPacket(
 
 	return nil
 }
+
+// getReceivedDenom returns the denom that the tokens sent with the given packet have on this chain
+func getReceivedDenom(packet channeltypes.Packet, denom string) string {
+	// If the tokens were originally sent from this chain, they are returned
+	// without the prefix that was added by the counterparty
+	if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), denom) {
+		// NOTE: the prefix contains the trailing "/"
+		voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+		return transfertypes.ParseDenomTrace(denom[len(voucherPrefix):]).IBCDenom()
+	}
+
+	// Convert the coin denom to its IBC representation
+	sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
+	// NOTE: sourcePrefix contains the trailing "/"
+	prefixedDenom := sourcePrefix + denom
+	// construct the denomination trace from the full raw denomination
+	return transfertypes.ParseDenomTrace(prefixedDenom).IBCDenom()
+}
-- 
2.43.0


From d9ea37f18c0536440076e931ec948afb5c18fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 30/39] fix: do not call the hooks when importing user
 preferences

---
 x/restaking/keeper/genesis.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..c6b7d39 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -111,7 +111,13 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 
 	// Store the user preferences
 	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		err := entry.Preferences.Validate()
+		if err != nil {
+			return err
+		}
+
+		// Do not call the hooks: what depends on the preferences is part of the genesis state as well
+		err = k.usersPreferences.Set(ctx, entry.UserAddress, entry.Preferences)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5df277d3a6382eb72600d190fc5169b45e054b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 31/39] fix: restore the unbonding ids when importing unbonding
 delegations

---
 x/restaking/keeper/genesis.go | 17 ++++++++++++++++-
 x/restaking/keeper/unbond.go  | 12 +++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index c6b7d39..4511465 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -95,13 +95,20 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 	}
 
 	// Store the unbonding delegations
+	var lastUnbondingID uint64
 	for _, ubd := range data.UnbondingDelegations {
-		_, err := k.SetUnbondingDelegation(ctx, ubd)
+		ubdKey, err := k.SetUnbondingDelegation(ctx, ubd)
 		if err != nil {
 			return err
 		}
 
 		for _, entry := range ubd.Entries {
+			err = k.SetUnbondingDelegationByUnbondingID(ctx, ubd, ubdKey, entry.UnbondingID)
+			if err != nil {
+				return err
+			}
+			lastUnbondingID = max(lastUnbondingID, entry.UnbondingID)
+
 			err = k.InsertUBDQueue(ctx, ubd, entry.CompletionTime)
 			if err != nil {
 				return err
@@ -109,6 +116,14 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
+	// Do not use again the ids of the imported unbonding delegations
+	if lastUnbondingID != 0 {
+		err := k.setLastUnbondingID(ctx, lastUnbondingID)
+		if err != nil {
+			return err
+		}
+	}
+
 	// Store the user preferences
 	for _, entry := range data.UsersPreferences {
 		err := entry.Preferences.Validate()
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 7a29241..3c6a7ef 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -31,12 +31,8 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	// Increment the unbonding id
 	unbondingID++
 
-	// Convert back into bytes for storage
-	bz = make([]byte, 8)
-	binary.BigEndian.PutUint64(bz, unbondingID)
-
 	// Store the new unbonding id
-	err = store.Set(types.UnbondingIDKey, bz)
+	err = k.setLastUnbondingID(ctx, unbondingID)
 	if err != nil {
 		return 0, err
 	}
@@ -44,6 +40,12 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	return unbondingID, nil
 }
 
+// setLastUnbondingID stores the last unbonding id that has been used
+func (k *Keeper) setLastUnbondingID(ctx context.Context, unbondingID uint64) error {
+	store := k.storeService.OpenKVStore(ctx)
+	return store.Set(types.UnbondingIDKey, binary.BigEndian.AppendUint64(nil, unbondingID))
+}
+
 // DeleteUnbondingIndex removes a mapping from UnbondingId to unbonding operation
 func (k *Keeper) DeleteUnbondingIndex(ctx context.Context, id uint64) error {
 	store := k.storeService.OpenKVStore(ctx)
-- 
2.43.0


From 53bdbfb841f73ebf30406456738794f2dd8d1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 32/39] fix: drop the historical rewards created by hooks when
 importing the rewards

---
 x/rewards/keeper/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..5e7eb73 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,15 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Drop the historical rewards that have been created by the hooks when
+	// the targets, whose actual records are imported here, were imported
+	for _, current := range records.CurrentRewards {
+		err = historicalRewardsCollection.Clear(ctx, collections.NewPrefixedPairRange[uint32, uint64](current.DelegationTargetID))
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From 32d004bf2e3c2b3933a525707b975f4d6aa699fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 33/39] fix: accept a liquid vesting module holding more than
 the insurance funds in genesis

---
 x/liquidvesting/keeper/genesis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index e29a571..eb96647 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -78,13 +78,13 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
-	// sum of the users' insurance fund
+	// Ensure that the balance of the liquid vesting module covers the sum of the users'
+	// insurance fund. It may be greater since anyone can send coins to the module
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0


From 79a25453e602e6a13c70d78cb056cfd045441a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 34/39] fix: delete the params of deleted operators

---
 x/operators/keeper/operators.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..290030a 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -136,6 +136,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Delete the params, which may have been set after the inactivation of the operator
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
-- 
2.43.0


From 36c2a76167eeefd46ad87b809679ec905c5a302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 35/39] fix: do not halt the chain on coins that cannot leave
 the rewards pool of a plan

---
 x/rewards/keeper/allocation.go      | 14 ++++++++++--
 x/rewards/keeper/rewards_plan.go    | 33 ++++++++++++++++++++---------
 x/rewards/types/expected_keepers.go |  1 +
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 7e5dc12..d02b767 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -262,10 +262,20 @@ func (k *Keeper) AllocateRewardsByPlan(
 
 	// Send the current block's rewards to the global rewards pool. We do this only
 	// now that we know that there's someone to allocate them to.
-	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	// The plan's rewards pool may hold coins that can't be transferred (e.g. coins
+	// that are still vesting), in which case the plan has to be skipped.
+	cacheCtx, writeCache := sdkCtx.CacheContext()
+	err = k.bankKeeper.SendCoinsFromAccountToModule(cacheCtx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
 	if err != nil {
-		return err
+		sdkCtx.Logger().Info(
+			"Skipping rewards plan because its rewards can't be transferred",
+			"plan_id", plan.ID,
+			"rewards", rewards.String(),
+			"error", err,
+		)
+		return nil
 	}
+	writeCache()
 
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := uint64(0)
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index c6185d4..a0b012b 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -127,17 +127,31 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 	// Transfer remaining rewards in the plan's rewards pool to the service's
 	// address.
 	rewardsPoolAddr := plan.MustGetRewardsPoolAddress(k.accountKeeper.AddressCodec())
-	remaining := k.bankKeeper.GetAllBalances(ctx, rewardsPoolAddr)
-	if remaining.IsAllPositive() {
-		// Get the service's address. We derive it from the ID since the service
-		// may have been deleted in the meanwhile.
-		serviceAddr := servicestypes.GetServiceAddress(plan.ServiceID)
-
-		// Transfer all the remaining rewards to the service's address.
-		err := k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
+	spendable := k.bankKeeper.SpendableCoins(ctx, rewardsPoolAddr)
+
+	// Get the service's address. We derive it from the ID since the service
+	// may have been deleted in the meanwhile.
+	serviceAddr := servicestypes.GetServiceAddress(plan.ServiceID)
+
+	// Transfer all the remaining rewards to the service's address. The coins that
+	// can't be transferred (e.g. coins that are still vesting) are left where they
+	// are since anyone can send them to the plan's rewards pool.
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+	remaining := sdk.NewCoins()
+	for _, coin := range spendable {
+		cacheCtx, writeCache := sdkCtx.CacheContext()
+		err := k.bankKeeper.SendCoins(cacheCtx, rewardsPoolAddr, serviceAddr, sdk.NewCoins(coin))
 		if err != nil {
-			return err
+			sdkCtx.Logger().Info(
+				"Remaining rewards can't be transferred to the service",
+				"plan_id", plan.ID,
+				"rewards", coin.String(),
+				"error", err,
+			)
+			continue
 		}
+		writeCache()
+		remaining = remaining.Add(coin)
 	}
 
 	// Remove the plan.
@@ -146,7 +160,6 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 		return err
 	}
 
-	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeTerminateRewardsPlan,
diff --git a/x/rewards/types/expected_keepers.go b/x/rewards/types/expected_keepers.go
index 1a39440..adaaf31 100644
--- a/x/rewards/types/expected_keepers.go
+++ b/x/rewards/types/expected_keepers.go
@@ -27,6 +27,7 @@ type AccountKeeper interface {
 
 type BankKeeper interface {
 	GetAllBalances(ctx context.Context, addr sdk.AccAddress) sdk.Coins
+	SpendableCoins(ctx context.Context, addr sdk.AccAddress) sdk.Coins
 	SendCoins(ctx context.Context, fromAddr, toAddr sdk.AccAddress, amt sdk.Coins) error
 	SendCoinsFromModuleToAccount(ctx context.Context, moduleName string, addr sdk.AccAddress, amt sdk.Coins) error
 	SendCoinsFromAccountToModule(ctx context.Context, addr sdk.AccAddress, moduleName string, amt sdk.Coins) error
-- 
2.43.0


From e17b7889350896c0ac12cc4285c950bff475b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 36/39] fix: do not burn the tokens restaked toward a restaking
 target

---
 x/liquidvesting/keeper/burn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/liquidvesting/keeper/burn.go b/x/liquidvesting/keeper/burn.go
index 9351248..9342a17 100644
--- a/x/liquidvesting/keeper/burn.go
+++ b/x/liquidvesting/keeper/burn.go
@@ -10,6 +10,7 @@ import (
 	storetypes "cosmossdk.io/store/types"
 	"github.com/cosmos/cosmos-sdk/runtime"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
 )
@@ -45,6 +46,16 @@ func (k *Keeper) BurnLockedRepresentation(
 		}
 	}
 
+	// Ensure that we are not burning the tokens that the users have restaked toward
+	// a restaking target
+	isRestakingTarget, err := k.isRestakingTarget(ctx, accAddress)
+	if err != nil {
+		return err
+	}
+	if isRestakingTarget {
+		return errors.Wrapf(sdkerrors.ErrUnauthorized, "can't burn the tokens of the restaking target %s", accAddress)
+	}
+
 	// Get the user balance
 	userBalance := k.bankKeeper.GetAllBalances(ctx, accAddress)
 
-- 
2.43.0


From 893bac35f545a161b3b97b285c67c72c55ecf4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 37/39] fix: refuse a rewards genesis whose rewards the rewards
 pool does not hold

---
 x/rewards/keeper/genesis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index 5e7eb73..8ef3bfd 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -325,7 +325,7 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 	}
 
 	totalOutstandingRewardsTruncated, _ := totalOutstandingRewards.TruncateDecimal()
-	if totalOutstandingRewardsTruncated.IsAnyGT(rewardsPoolBalances) {
+	if !rewardsPoolBalances.IsAllGTE(totalOutstandingRewardsTruncated) {
 		return fmt.Errorf("rewards pool module balance does not match the module holdings: %s < %s",
 			rewardsPoolBalances,
 			totalOutstandingRewardsTruncated)
-- 
2.43.0


From d900175dc52fdd4a17c887ee113cb9682c58fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 38/39] fix: refuse the params of unknown services in genesis

---
 x/services/keeper/genesis.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/services/keeper/genesis.go b/x/services/keeper/genesis.go
index 469b38c..e31d229 100644
--- a/x/services/keeper/genesis.go
+++ b/x/services/keeper/genesis.go
@@ -1,6 +1,8 @@
 package keeper
 
 import (
+	"fmt"
+
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
 	"github.com/milkyway-labs/milkyway/v3/x/services/types"
@@ -55,6 +57,15 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 	}
 
 	for _, serviceParams := range state.ServicesParams {
+		// Ensure that the service is present
+		found, err := k.HasService(ctx, serviceParams.ServiceID)
+		if err != nil {
+			return err
+		}
+		if !found {
+			return fmt.Errorf("can't set service params for %d, service not found", serviceParams.ServiceID)
+		}
+
 		err = k.SetServiceParams(ctx, serviceParams.ServiceID, serviceParams.Params)
 		if err != nil {
 			return err
-- 
2.43.0


From f278e685bdc956b65fdd8aff8b478317a5e841f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 39/39] fix: delete the params of deleted services

---
 x/services/keeper/services.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index e53693b..ec52905 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -147,6 +147,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return err
 	}
 
+	// Delete the params of the service
+	err = k.serviceParams.Remove(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return k.serviceAddressSet.Remove(ctx, service.Address)
 }
 
-- 
2.43.0

